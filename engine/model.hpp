// Reference model of a parse tree, written from the library's documentation: plain data, plain loops.
// It knows nothing of the library's headers.
#pragma once
#include <cstdint>
#include <functional>
#include <limits>
#include <optional>
#include <string>
#include <vector>

namespace m
{
using std::string;
using std::vector;

constexpr std::size_t NMAX = std::numeric_limits<std::size_t>::max();

struct prefixes {
    string lp = "--";
    string sp = "-";
};
extern prefixes pfx;

enum P { L, S, N };
struct Tok {
    P p;
    string n;
    bool operator==(const Tok& o) const { return p == o.p && n == o.n; }
};
string show(const Tok& t);
string show(const vector<Tok>& v);

// error codes, numbered as documented for translations
enum Code {
    unknown_argument = 0,
    unhandled_arguments,
    argument_has_already_been_set,
    failed_to_parse,
    no_arguments_passed,
    minimum_value_not_reached,
    maximum_value_exceeded,
    minimum_count_not_reached,
    maximum_count_exceeded,
    unknown_argument_with_suggestion,
    mode_requires_arguments = 100,
    missing_required_argument,
    too_few_values_for_alias,
    dependent_argument_missing,
    one_of_selected_type_mismatch,
    missing_value_separator,
};

struct Err {
    Code code;
    vector<Tok> toks;
};

enum class K { root, mode, flag, count, arg, marg, pos, fwd, oneof, agroup, help };

struct Node {
    K k = K::root;
    string id;  // router id
    string lng, sht, none, disp, err, desc;
    bool has_none = false, has_disp = false, has_err = false;
    string type;  // value type
    string sep;   // value separator, empty if none
    std::size_t minc = 0, maxc = 0;
    string endm;
    bool required = false;
    std::optional<string> def;  // canonical default
    std::optional<string> minv, maxv;  // canonical scalar text (numbers)
    bool ct_bounds = false;
    string cmp;  // ordering of the bounds: natural, rev or len
    bool unsigned_bounds = false;
    vector<string> alias;  // long or short names referred to ("L:foo" / "S:f")
    vector<string> dep;
    int en = -1;                   // index of the runtime switch
    bool en_req = false;           // conditionally required
    std::optional<string> en_def;  // value if absent and disabled
    bool custom = false;           // custom parser: see parse_scalar
    bool flatten = false;          // help
    std::size_t indent = 4;        // help: spaces per level
    std::size_t offset = 8;        // help: least columns for descriptions to be wrapped
    string pname, pver, pintro, padd;
    vector<Node> ch;
    const Node* parent = nullptr;

    bool named() const { return !lng.empty() || !sht.empty() || has_none; }
    bool noresult() const { return k == K::help || k == K::mode || !alias.empty(); }
};

inline Node nd(K k)
{
    Node n;
    n.k = k;
    return n;
}

// Canonical value of a value-initialised object of a type
string zero(const string& type);
// Converts one token; nullopt if it does not denote a value of the type
std::optional<string> parse_scalar(const string& type, const string& tok, bool custom);

struct World {
    unsigned cfg = 0;          // runtime switches
    std::size_t columns = 0;   // terminal columns
    // translations: code -> message; default ones if absent
    std::function<string(const Err&)> translate;
};

void finalise(Node& root);
string predict(const Node& root, const World& w, const vector<string>& argv);
string predict_help(const Node& root, const World& w);  // root.help()
string format_message(const string& tmpl, const vector<Tok>& toks);
string default_message(Code c);
string translate_default(const Err& e);

// text helpers, independent implementations
vector<string> graphemes(const string& s);
std::size_t lev(const string& a, const string& b);
std::size_t width(const string& s);
vector<string> wrap(const string& s, std::size_t w);
}  // namespace m
