// Stand-in for the part of the Thrift 0.9.0 compiler that the Go generator is
// written against: the syntax tree and the base class of the generators.
// Written from the published interface of Thrift 0.9.0.
#ifndef T_GENERATOR_H
#define T_GENERATOR_H

#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

class t_program;
class t_struct;

class t_doc
{
public:
    t_doc() : has_doc_(false) {}
    void set_doc(const std::string& doc) { doc_ = doc; has_doc_ = true; }
    const std::string& get_doc() const { return doc_; }
    bool has_doc() { return has_doc_; }
private:
    std::string doc_;
    bool has_doc_;
};

class t_type : public t_doc
{
public:
    virtual ~t_type() {}
    virtual void set_name(const std::string& name) { name_ = name; }
    virtual const std::string& get_name() const { return name_; }
    virtual bool is_void() const { return false; }
    virtual bool is_base_type() const { return false; }
    virtual bool is_string() const { return false; }
    virtual bool is_bool() const { return false; }
    virtual bool is_typedef() const { return false; }
    virtual bool is_enum() const { return false; }
    virtual bool is_struct() const { return false; }
    virtual bool is_xception() const { return false; }
    virtual bool is_container() const { return false; }
    virtual bool is_list() const { return false; }
    virtual bool is_set() const { return false; }
    virtual bool is_map() const { return false; }
    virtual bool is_service() const { return false; }
    t_program* get_program() { return program_; }
    const t_program* get_program() const { return program_; }
    t_type* get_true_type();
    std::map<std::string, std::string> annotations_;
protected:
    t_type() : program_(NULL) {}
    t_type(t_program* program) : program_(program) {}
    t_type(t_program* program, std::string name) : program_(program), name_(name) {}
    t_type(std::string name) : program_(NULL), name_(name) {}
    t_program* program_;
    std::string name_;
};

class t_base_type : public t_type
{
public:
    enum t_base { TYPE_VOID, TYPE_STRING, TYPE_BOOL, TYPE_BYTE, TYPE_I16, TYPE_I32, TYPE_I64, TYPE_DOUBLE };
    t_base_type(std::string name, t_base base) : t_type(name), base_(base), string_list_(false), binary_(false), string_enum_(false) {}
    t_base get_base() const { return base_; }
    bool is_void() const { return base_ == TYPE_VOID; }
    bool is_string() const { return base_ == TYPE_STRING; }
    bool is_bool() const { return base_ == TYPE_BOOL; }
    void set_binary(bool val) { binary_ = val; }
    bool is_binary() const { return binary_ && (base_ == TYPE_STRING); }
    bool is_base_type() const { return true; }
    static std::string t_base_name(t_base tbase)
    {
        switch (tbase) {
        case TYPE_VOID: return "void";
        case TYPE_STRING: return "string";
        case TYPE_BOOL: return "bool";
        case TYPE_BYTE: return "byte";
        case TYPE_I16: return "i16";
        case TYPE_I32: return "i32";
        case TYPE_I64: return "i64";
        case TYPE_DOUBLE: return "double";
        }
        return "(unknown)";
    }
private:
    t_base base_;
    bool string_list_;
    bool binary_;
    bool string_enum_;
};

class t_typedef : public t_type
{
public:
    t_typedef(t_program* program, t_type* type, std::string symbolic)
        : t_type(program, symbolic), type_(type), symbolic_(symbolic) {}
    t_type* get_type() const { return type_; }
    const std::string& get_symbolic() const { return symbolic_; }
    bool is_typedef() const { return true; }
private:
    t_type* type_;
    std::string symbolic_;
};

inline t_type* t_type::get_true_type()
{
    t_type* type = this;
    while (type->is_typedef()) {
        type = ((t_typedef*)type)->get_type();
    }
    return type;
}

class t_enum_value : public t_doc
{
public:
    t_enum_value(std::string name) : name_(name), has_value_(false), value_(0) {}
    t_enum_value(std::string name, int value) : name_(name), has_value_(true), value_(value) {}
    const std::string& get_name() { return name_; }
    bool has_value() { return has_value_; }
    int get_value() { return value_; }
    void set_value(int val) { has_value_ = true; value_ = val; }
    std::map<std::string, std::string> annotations_;
private:
    std::string name_;
    bool has_value_;
    int value_;
};

class t_enum : public t_type
{
public:
    t_enum(t_program* program) : t_type(program) {}
    void set_name(const std::string& name) { name_ = name; }
    void append(t_enum_value* constant) { constants_.push_back(constant); }
    const std::vector<t_enum_value*>& get_constants() { return constants_; }
    t_enum_value* get_constant_by_name(const std::string& name)
    {
        for (size_t i = 0; i < constants_.size(); ++i) {
            if (constants_[i]->get_name() == name) {
                return constants_[i];
            }
        }
        return NULL;
    }
    bool is_enum() const { return true; }
    void resolve_values()
    {
        int lastValue = -1;
        for (size_t i = 0; i < constants_.size(); ++i) {
            if (!constants_[i]->has_value()) {
                constants_[i]->set_value(++lastValue);
            } else {
                lastValue = constants_[i]->get_value();
            }
        }
    }
private:
    std::vector<t_enum_value*> constants_;
};

class t_const_value
{
public:
    enum t_const_value_type { CV_INTEGER, CV_DOUBLE, CV_STRING, CV_MAP, CV_LIST, CV_IDENTIFIER };
    t_const_value() : intVal_(0), doubleVal_(0), enum_(NULL), valType_(CV_INTEGER) {}
    void set_string(std::string val) { valType_ = CV_STRING; stringVal_ = val; }
    std::string get_string() const { return stringVal_; }
    void set_integer(int64_t val) { valType_ = CV_INTEGER; intVal_ = val; }
    int64_t get_integer() const
    {
        if (valType_ == CV_IDENTIFIER) {
            if (enum_ == NULL) {
                throw "have identifier \"" + get_identifier() + "\", but unset enum on line!";
            }
            std::string identifier = get_identifier();
            std::string::size_type dot = identifier.rfind('.');
            if (dot != std::string::npos) {
                identifier = identifier.substr(dot + 1);
            }
            t_enum_value* val = enum_->get_constant_by_name(identifier);
            if (val == NULL) {
                throw "Unable to find enum value \"" + identifier + "\" in enum \"" + enum_->get_name() + "\"";
            }
            return val->get_value();
        }
        return intVal_;
    }
    void set_double(double val) { valType_ = CV_DOUBLE; doubleVal_ = val; }
    double get_double() const { return doubleVal_; }
    void set_map() { valType_ = CV_MAP; }
    void add_map(t_const_value* key, t_const_value* val) { mapVal_[key] = val; }
    const std::map<t_const_value*, t_const_value*>& get_map() const { return mapVal_; }
    void set_list() { valType_ = CV_LIST; }
    void add_list(t_const_value* val) { listVal_.push_back(val); }
    const std::vector<t_const_value*>& get_list() const { return listVal_; }
    void set_identifier(std::string val) { valType_ = CV_IDENTIFIER; identifierVal_ = val; }
    std::string get_identifier() const { return identifierVal_; }
    void set_enum(t_enum* tenum) { enum_ = tenum; }
    t_const_value_type get_type() const { return valType_; }
private:
    std::map<t_const_value*, t_const_value*> mapVal_;
    std::vector<t_const_value*> listVal_;
    std::string stringVal_;
    int64_t intVal_;
    double doubleVal_;
    std::string identifierVal_;
    t_enum* enum_;
    t_const_value_type valType_;
};

class t_const : public t_doc
{
public:
    t_const(t_type* type, std::string name, t_const_value* value) : type_(type), name_(name), value_(value) {}
    t_type* get_type() const { return type_; }
    std::string get_name() const { return name_; }
    t_const_value* get_value() const { return value_; }
private:
    t_type* type_;
    std::string name_;
    t_const_value* value_;
};

class t_field : public t_doc
{
public:
    enum e_req { T_REQUIRED, T_OPTIONAL, T_OPT_IN_REQ_OUT };
    t_field(t_type* type, std::string name)
        : type_(type), name_(name), key_(0), req_(T_OPT_IN_REQ_OUT), value_(NULL), xsd_optional_(false), xsd_nillable_(false) {}
    t_field(t_type* type, std::string name, int32_t key)
        : type_(type), name_(name), key_(key), req_(T_OPT_IN_REQ_OUT), value_(NULL), xsd_optional_(false), xsd_nillable_(false) {}
    t_type* get_type() const { return type_; }
    const std::string& get_name() const { return name_; }
    int32_t get_key() const { return key_; }
    e_req get_req() const { return req_; }
    void set_req(e_req req) { req_ = req; }
    void set_value(t_const_value* value) { value_ = value; }
    t_const_value* get_value() { return value_; }
    const t_const_value* get_value() const { return value_; }
    struct key_compare {
        bool operator()(t_field const* const& a, t_field const* const& b) { return a->get_key() < b->get_key(); }
    };
    std::map<std::string, std::string> annotations_;
private:
    t_type* type_;
    std::string name_;
    int32_t key_;
    e_req req_;
    t_const_value* value_;
    bool xsd_optional_;
    bool xsd_nillable_;
};

class t_struct : public t_type
{
public:
    typedef std::vector<t_field*> members_type;
    t_struct(t_program* program) : t_type(program), is_xception_(false), is_union_(false) {}
    t_struct(t_program* program, const std::string& name) : t_type(program, name), is_xception_(false), is_union_(false) {}
    void set_name(const std::string& name) { name_ = name; }
    void set_xception(bool is_xception) { is_xception_ = is_xception; }
    void set_union(bool is_union) { is_union_ = is_union; }
    bool is_union() const { return is_union_; }
    bool append(t_field* elem)
    {
        members_.push_back(elem);
        typedef members_type::iterator iter_type;
        std::pair<iter_type, iter_type> bounds = std::equal_range(
                    members_in_id_order_.begin(), members_in_id_order_.end(), elem, t_field::key_compare());
        if (bounds.first != bounds.second) {
            return false;
        }
        members_in_id_order_.insert(bounds.second, elem);
        return true;
    }
    const members_type& get_members() const { return members_; }
    const members_type& get_sorted_members() const { return members_in_id_order_; }
    bool is_struct() const { return !is_xception_; }
    bool is_xception() const { return is_xception_; }
private:
    members_type members_;
    members_type members_in_id_order_;
    bool is_xception_;
    bool is_union_;
};

class t_container : public t_type
{
public:
    t_container() : has_cpp_name_(false) {}
    virtual ~t_container() {}
    void set_cpp_name(std::string cpp_name) { cpp_name_ = cpp_name; has_cpp_name_ = true; }
    bool has_cpp_name() { return has_cpp_name_; }
    std::string get_cpp_name() { return cpp_name_; }
    bool is_container() const { return true; }
private:
    std::string cpp_name_;
    bool has_cpp_name_;
};

class t_list : public t_container
{
public:
    t_list(t_type* elem_type) : elem_type_(elem_type) {}
    t_type* get_elem_type() const { return elem_type_; }
    bool is_list() const { return true; }
private:
    t_type* elem_type_;
};

class t_set : public t_container
{
public:
    t_set(t_type* elem_type) : elem_type_(elem_type) {}
    t_type* get_elem_type() const { return elem_type_; }
    bool is_set() const { return true; }
private:
    t_type* elem_type_;
};

class t_map : public t_container
{
public:
    t_map(t_type* key_type, t_type* val_type) : key_type_(key_type), val_type_(val_type) {}
    t_type* get_key_type() const { return key_type_; }
    t_type* get_val_type() const { return val_type_; }
    bool is_map() const { return true; }
private:
    t_type* key_type_;
    t_type* val_type_;
};

class t_function : public t_doc
{
public:
    t_function(t_type* returntype, std::string name, t_struct* arglist, t_struct* xceptions, bool oneway)
        : returntype_(returntype), name_(name), arglist_(arglist), xceptions_(xceptions), oneway_(oneway) {}
    t_type* get_returntype() const { return returntype_; }
    const std::string& get_name() const { return name_; }
    t_struct* get_arglist() const { return arglist_; }
    t_struct* get_xceptions() const { return xceptions_; }
    bool is_oneway() const { return oneway_; }
private:
    t_type* returntype_;
    std::string name_;
    t_struct* arglist_;
    t_struct* xceptions_;
    bool oneway_;
};

class t_service : public t_type
{
public:
    t_service(t_program* program) : t_type(program), extends_(NULL) {}
    bool is_service() const { return true; }
    void set_extends(t_service* extends) { extends_ = extends; }
    void add_function(t_function* func) { functions_.push_back(func); }
    const std::vector<t_function*>& get_functions() const { return functions_; }
    t_service* get_extends() { return extends_; }
private:
    std::vector<t_function*> functions_;
    t_service* extends_;
};

class t_program : public t_doc
{
public:
    t_program(std::string path, std::string name) : path_(path), name_(name), out_path_("./"), out_path_is_absolute_(false) {}
    const std::string& get_path() const { return path_; }
    const std::string& get_name() const { return name_; }
    void set_out_path(std::string out_path, bool out_path_is_absolute)
    {
        out_path_ = out_path;
        out_path_is_absolute_ = out_path_is_absolute;
        if (!out_path_.empty() && !(out_path_[out_path_.size() - 1] == '/' || out_path_[out_path_.size() - 1] == '\\')) {
            out_path_.push_back('/');
        }
    }
    const std::string& get_out_path() const { return out_path_; }
    bool is_out_path_absolute() const { return out_path_is_absolute_; }
    const std::vector<t_typedef*>& get_typedefs() const { return typedefs_; }
    const std::vector<t_enum*>& get_enums() const { return enums_; }
    const std::vector<t_const*>& get_consts() const { return consts_; }
    const std::vector<t_struct*>& get_structs() const { return structs_; }
    const std::vector<t_struct*>& get_xceptions() const { return xceptions_; }
    const std::vector<t_struct*>& get_objects() const { return objects_; }
    const std::vector<t_service*>& get_services() const { return services_; }
    void add_typedef(t_typedef* td) { typedefs_.push_back(td); }
    void add_enum(t_enum* te) { enums_.push_back(te); }
    void add_const(t_const* tc) { consts_.push_back(tc); }
    void add_struct(t_struct* ts) { objects_.push_back(ts); structs_.push_back(ts); }
    void add_xception(t_struct* tx) { objects_.push_back(tx); xceptions_.push_back(tx); }
    void add_service(t_service* ts) { services_.push_back(ts); }
    void add_include(t_program* program) { includes_.push_back(program); }
    std::vector<t_program*>& get_includes() { return includes_; }
    void set_namespace(std::string language, std::string name_space) { namespaces_[language] = name_space; }
    std::string get_namespace(std::string language) const
    {
        std::map<std::string, std::string>::const_iterator iter;
        if ((iter = namespaces_.find(language)) != namespaces_.end() || (iter = namespaces_.find("*")) != namespaces_.end()) {
            return iter->second;
        }
        return std::string();
    }
private:
    std::string path_;
    std::string name_;
    std::string out_path_;
    bool out_path_is_absolute_;
    std::vector<t_program*> includes_;
    std::vector<t_typedef*> typedefs_;
    std::vector<t_enum*> enums_;
    std::vector<t_const*> consts_;
    std::vector<t_struct*> objects_;
    std::vector<t_struct*> structs_;
    std::vector<t_struct*> xceptions_;
    std::vector<t_service*> services_;
    std::map<std::string, std::string> namespaces_;
};

extern t_type* g_type_void;
extern t_type* g_type_string;
extern t_type* g_type_binary;
extern t_type* g_type_bool;
extern t_type* g_type_byte;
extern t_type* g_type_i16;
extern t_type* g_type_i32;
extern t_type* g_type_i64;
extern t_type* g_type_double;

class t_generator
{
public:
    t_generator(t_program* program) : tmp_(0), indent_(0), program_(program), program_name_(program->get_name())
    {
        escape_['\n'] = "\\n";
        escape_['\r'] = "\\r";
        escape_['\t'] = "\\t";
        escape_['"'] = "\\\"";
        escape_['\\'] = "\\\\";
    }
    virtual ~t_generator() {}
    virtual void generate_program()
    {
        init_generator();
        std::vector<t_enum*> enums = program_->get_enums();
        for (size_t i = 0; i < enums.size(); ++i) {
            generate_enum(enums[i]);
        }
        std::vector<t_typedef*> typedefs = program_->get_typedefs();
        for (size_t i = 0; i < typedefs.size(); ++i) {
            generate_typedef(typedefs[i]);
        }
        std::vector<t_struct*> objects = program_->get_objects();
        for (size_t i = 0; i < objects.size(); ++i) {
            if (objects[i]->is_xception()) {
                generate_xception(objects[i]);
            } else {
                generate_struct(objects[i]);
            }
        }
        generate_consts(program_->get_consts());
        std::vector<t_service*> services = program_->get_services();
        for (size_t i = 0; i < services.size(); ++i) {
            service_name_ = get_service_name(services[i]);
            generate_service(services[i]);
        }
        close_generator();
    }
    const t_program* get_program() const { return program_; }
    void generate_docstring_comment(std::ofstream& out, const std::string& comment_start,
                                    const std::string& line_prefix, const std::string& contents,
                                    const std::string& comment_end)
    {
        if (comment_start != "") {
            indent(out) << comment_start;
        }
        std::stringstream docs(contents, std::ios_base::in);
        while (!docs.eof()) {
            char line[1024];
            docs.getline(line, 1024);
            if (strlen(line) > 0 || !docs.eof()) {
                indent(out) << line_prefix << line << std::endl;
            }
        }
        if (comment_end != "") {
            indent(out) << comment_end;
        }
    }
    std::string escape_string(const std::string& in) const
    {
        std::string result = "";
        for (std::string::const_iterator it = in.begin(); it < in.end(); it++) {
            std::map<char, std::string>::const_iterator res = escape_.find(*it);
            if (res != escape_.end()) {
                result.append(res->second);
            } else {
                result.push_back(*it);
            }
        }
        return result;
    }
    std::string get_escaped_string(t_const_value* constval) { return escape_string(constval->get_string()); }
protected:
    virtual void init_generator() {}
    virtual void close_generator() {}
    virtual void generate_consts(std::vector<t_const*> consts)
    {
        for (size_t i = 0; i < consts.size(); ++i) {
            generate_const(consts[i]);
        }
    }
    virtual void generate_typedef(t_typedef* ttypedef) = 0;
    virtual void generate_enum(t_enum* tenum) = 0;
    virtual void generate_const(t_const*) {}
    virtual void generate_struct(t_struct* tstruct) = 0;
    virtual void generate_service(t_service* tservice) = 0;
    virtual void generate_xception(t_struct* txception) { generate_struct(txception); }
    virtual std::string get_program_name(t_program* tprogram) { return tprogram->get_name(); }
    virtual std::string get_service_name(t_service* tservice) { return tservice->get_name(); }
    virtual std::string get_out_dir() const
    {
        if (program_->is_out_path_absolute()) {
            return program_->get_out_path() + "/";
        }
        return program_->get_out_path() + out_dir_base_ + "/";
    }
    std::string tmp(std::string name)
    {
        std::ostringstream out;
        out << name << tmp_++;
        return out.str();
    }
    void indent_up() { ++indent_; }
    void indent_down() { --indent_; }
    virtual std::string indent_str() const { return "  "; }
    std::string indent()
    {
        std::string ind = "";
        for (int i = 0; i < indent_; ++i) {
            ind += indent_str();
        }
        return ind;
    }
    std::ostream& indent(std::ostream& os) { return os << indent(); }
    std::string capitalize(std::string in) { in[0] = toupper(in[0]); return in; }
    std::string decapitalize(std::string in) { in[0] = tolower(in[0]); return in; }
    std::string lowercase(std::string in)
    {
        for (size_t i = 0; i < in.size(); ++i) {
            in[i] = tolower(in[i]);
        }
        return in;
    }
    static t_type* get_true_type(t_type* type)
    {
        while (type->is_typedef()) {
            type = ((t_typedef*)type)->get_type();
        }
        return type;
    }
private:
    int tmp_;
    int indent_;
protected:
    t_program* program_;
    std::string program_name_;
    std::string service_name_;
    std::string out_dir_base_;
    std::map<char, std::string> escape_;
};

class t_generator_factory
{
public:
    t_generator_factory(const std::string& short_name, const std::string& long_name, const std::string& documentation)
        : short_name_(short_name), long_name_(long_name), documentation_(documentation)
    {
        the_factory() = this;
    }
    virtual ~t_generator_factory() {}
    virtual t_generator* get_generator(t_program* program, const std::map<std::string, std::string>& parsed_options,
                                       const std::string& option_string) = 0;
    static t_generator_factory*& the_factory()
    {
        static t_generator_factory* f = NULL;
        return f;
    }
private:
    std::string short_name_, long_name_, documentation_;
};

template <typename generator>
class t_generator_factory_impl : public t_generator_factory
{
public:
    t_generator_factory_impl(const std::string& s, const std::string& l, const std::string& d) : t_generator_factory(s, l, d) {}
    t_generator* get_generator(t_program* program, const std::map<std::string, std::string>& parsed_options,
                               const std::string& option_string)
    {
        return new generator(program, parsed_options, option_string);
    }
};

#define THRIFT_REGISTER_GENERATOR(language, long_name, doc) \
    class t_##language##_generator_factory_impl : public t_generator_factory_impl<t_##language##_generator> \
    { \
    public: \
        t_##language##_generator_factory_impl() : t_generator_factory_impl<t_##language##_generator>(#language, long_name, doc) {} \
    }; \
    static t_##language##_generator_factory_impl _registerer;

#endif
