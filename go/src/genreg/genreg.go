// Package genreg is where generated packages, through a file added to each,
// make known what they define.
package genreg

import "thrift"

// Package is what one generated package defines.
type Package struct {
	News     map[string]func() interface{} // constructors of structs, by their Go name
	Values   map[string]func() interface{} // constants and variables
	Enums    map[string]func(int64) interface{}
	Froms    map[string]func(string) interface{} // FromXString functions
	Services map[string]*Service
}

// Handler answers a call: the function's Go name and arguments, giving its results.
type Handler func(fn string, args []interface{}) []interface{}

// Service makes the parts of one service.
type Service struct {
	ClientFactory  func(t thrift.TTransport, f thrift.TProtocolFactory) interface{}
	ClientProtocol func(t thrift.TTransport, in, out thrift.TProtocol) interface{}
	Processor      func(h Handler) thrift.TProcessor
}

// Packages holds the packages linked in, by import path.
var Packages = map[string]*Package{}
