// Package genall takes the place of the one that imports all generated
// packages when there are none.
package genall
