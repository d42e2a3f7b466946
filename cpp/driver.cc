// Reads syntax trees and runs the Go generator on each.
//
// Input: whitespace-separated tokens; strings are hexadecimal after an 'x'.
//   program NAME NS OUT  N includes (program numbers)
//   enum NAME DOC n {NAME hasval val DOC}
//   typedef TYPE NAME DOC
//   struct NAME kind(0 struct,1 exception) DOC FIELDS
//   const TYPE NAME VALUE
//   service NAME DOC extProgram extName n {NAME oneway DOC TYPE FIELDS FIELDS}
//   end            (the program is generated)
// Output: "ok" or "error TEXT" per program.
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include "t_generator.h"

using namespace std;

t_type* g_type_void = new t_base_type("void", t_base_type::TYPE_VOID);
t_type* g_type_string = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_binary = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_bool = new t_base_type("bool", t_base_type::TYPE_BOOL);
t_type* g_type_byte = new t_base_type("byte", t_base_type::TYPE_BYTE);
t_type* g_type_i16 = new t_base_type("i16", t_base_type::TYPE_I16);
t_type* g_type_i32 = new t_base_type("i32", t_base_type::TYPE_I32);
t_type* g_type_i64 = new t_base_type("i64", t_base_type::TYPE_I64);
t_type* g_type_double = new t_base_type("double", t_base_type::TYPE_DOUBLE);

static vector<t_program*> programs;
static vector<map<string, t_type*> > types;
static vector<map<string, t_service*> > services;

static void die(const string& what)
{
    cerr << "driver: " << what << endl;
    exit(3);
}

static string word()
{
    string s;
    if (!(cin >> s)) {
        die("unexpected end of input");
    }
    return s;
}

static string str()
{
    string s = word(), r;
    if (s.empty() || s[0] != 'x') {
        die("string expected, not " + s);
    }
    for (size_t i = 1; i + 1 < s.size(); i += 2) {
        r.push_back((char)strtol(s.substr(i, 2).c_str(), NULL, 16));
    }
    return r;
}

static long long num() { return strtoll(word().c_str(), NULL, 10); }

static t_type* type()
{
    string k = word();
    if (k == "void") return g_type_void;
    if (k == "string") return g_type_string;
    if (k == "binary") return g_type_binary;
    if (k == "bool") return g_type_bool;
    if (k == "byte") return g_type_byte;
    if (k == "i16") return g_type_i16;
    if (k == "i32") return g_type_i32;
    if (k == "i64") return g_type_i64;
    if (k == "double") return g_type_double;
    if (k == "list") { t_type* e = type(); return new t_list(e); }
    if (k == "set") { t_type* e = type(); return new t_set(e); }
    if (k == "map") { t_type* a = type(); t_type* b = type(); return new t_map(a, b); }
    if (k == "named") {
        size_t p = num();
        string n = str();
        if (p >= types.size() || !types[p].count(n)) {
            die("unknown type " + n);
        }
        return types[p][n];
    }
    die("unknown kind of type " + k);
    return NULL;
}

static t_const_value* value()
{
    string k = word();
    t_const_value* v = new t_const_value();
    if (k == "i") {
        v->set_integer(num());
    } else if (k == "d") {
        v->set_double(strtod(word().c_str(), NULL));
    } else if (k == "s") {
        v->set_string(str());
    } else if (k == "e") {
        t_type* e = type();
        v->set_identifier(str());
        v->set_enum((t_enum*)e->get_true_type());
    } else if (k == "l") {
        v->set_list();
        for (long n = num(); n > 0; n--) {
            v->add_list(value());
        }
    } else if (k == "m") {
        v->set_map();
        for (long n = num(); n > 0; n--) {
            t_const_value* a = value();
            t_const_value* b = value();
            v->add_map(a, b);
        }
    } else {
        die("unknown kind of value " + k);
    }
    return v;
}

static void doc(t_doc* d)
{
    string s = str();
    if (!s.empty()) {
        d->set_doc(s);
    }
}

static void fields(t_struct* s)
{
    for (long n = num(); n > 0; n--) {
        long id = num();
        string name = str();
        long req = num();
        t_type* t = type();
        t_field* f = new t_field(t, name, id);
        f->set_req((t_field::e_req)req);
        if (num()) {
            f->set_value(value());
        }
        doc(f);
        if (!s->append(f)) {
            die("field id used twice in " + s->get_name());
        }
    }
}

int main()
{
    ((t_base_type*)g_type_binary)->set_binary(true);
    string k;
    t_program* p = NULL;
    size_t me = 0;
    while (cin >> k) {
        if (k == "program") {
            string name = str(), ns = str(), out = str();
            p = new t_program(name + ".thrift", name);
            if (!ns.empty()) {
                p->set_namespace("go", ns);
            }
            p->set_out_path(out, false);
            me = programs.size();
            programs.push_back(p);
            types.push_back(map<string, t_type*>());
            services.push_back(map<string, t_service*>());
            for (long n = num(); n > 0; n--) {
                p->add_include(programs.at(num()));
            }
        } else if (k == "enum") {
            t_enum* e = new t_enum(p);
            e->set_name(str());
            doc(e);
            for (long n = num(); n > 0; n--) {
                string name = str();
                long has = num(), val = num();
                t_enum_value* v = has ? new t_enum_value(name, val) : new t_enum_value(name);
                doc(v);
                e->append(v);
            }
            e->resolve_values();
            p->add_enum(e);
            types[me][e->get_name()] = e;
        } else if (k == "typedef") {
            t_type* t = type();
            t_typedef* d = new t_typedef(p, t, str());
            doc(d);
            p->add_typedef(d);
            types[me][d->get_symbolic()] = d;
        } else if (k == "declare") {
            // a struct that is used before its definition
            t_struct* s = new t_struct(p, str());
            s->set_xception(num() != 0);
            types[me][s->get_name()] = s;
        } else if (k == "struct") {
            string name = str();
            t_struct* s;
            if (types[me].count(name)) {
                s = (t_struct*)types[me][name];
                num();
            } else {
                s = new t_struct(p, name);
                s->set_xception(num() != 0);
                types[me][name] = s;
            }
            doc(s);
            fields(s);
            if (s->is_xception()) {
                p->add_xception(s);
            } else {
                p->add_struct(s);
            }
        } else if (k == "const") {
            t_type* t = type();
            string name = str();
            p->add_const(new t_const(t, name, value()));
        } else if (k == "service") {
            t_service* s = new t_service(p);
            s->set_name(str());
            doc(s);
            long ep = num();
            string en = str();
            if (ep >= 0) {
                if (!services.at(ep).count(en)) {
                    die("unknown service " + en);
                }
                s->set_extends(services[ep][en]);
            }
            for (long n = num(); n > 0; n--) {
                string name = str();
                bool oneway = num() != 0;
                string d = str();
                t_type* ret = type();
                t_struct* args = new t_struct(p, name + "_args");
                fields(args);
                t_struct* xs = new t_struct(p, name + "_result");
                fields(xs);
                t_function* f = new t_function(ret, name, args, xs, oneway);
                if (!d.empty()) {
                    f->set_doc(d);
                }
                s->add_function(f);
            }
            p->add_service(s);
            services[me][s->get_name()] = s;
        } else if (k == "end") {
            string msg = "ok";
            try {
                mkdir(p->get_out_path().c_str(), 0755);
                t_generator* g = t_generator_factory::the_factory()->get_generator(
                                     p, map<string, string>(), "");
                g->generate_program();
                delete g;
            } catch (const string& s) {
                msg = "error " + s;
            } catch (const char* s) {
                msg = string("error ") + s;
            }
            cout << msg << endl;
        } else {
            die("unknown word " + k);
        }
    }
    return 0;
}
