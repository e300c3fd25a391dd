// Stand-in for cura-formulae-engine: a small Python-like expression evaluator, enough for the start/end g-code
// templates and numeric settings used in the simulated workloads.
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <cura-formulae-engine/parser/parser.h>
namespace CuraFormulaeEngine
{
using eval::Value;
namespace
{
struct SyntaxError {};
struct EvalError {};
struct P
{
    const std::string& s;
    const env::Environment* env; // null: only check the syntax
    size_t i = 0;
    void ws() { while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) ++i; }
    bool eat(const char* t)
    {
        ws();
        const size_t n = std::char_traits<char>::length(t);
        if (s.compare(i, n, t) != 0) return false;
        if (std::isalpha(static_cast<unsigned char>(t[0])) && i + n < s.size() && (std::isalnum(static_cast<unsigned char>(s[i + n])) || s[i + n] == '_')) return false;
        i += n;
        return true;
    }
    static double num(const Value& v)
    {
        if (auto* b = std::get_if<bool>(&v.value)) return *b ? 1 : 0;
        if (auto* n = std::get_if<std::int64_t>(&v.value)) return static_cast<double>(*n);
        if (auto* d = std::get_if<double>(&v.value)) return *d;
        throw EvalError();
    }
    static bool truth(const Value& v)
    {
        if (auto* st = std::get_if<std::string>(&v.value)) return ! st->empty();
        if (auto* l = std::get_if<std::vector<Value>>(&v.value)) return ! l->empty();
        if (v.value.index() == 0) return false;
        return num(v) != 0;
    }
    static bool isInt(const Value& v) { return std::holds_alternative<std::int64_t>(v.value) || std::holds_alternative<bool>(v.value); }
    static std::int64_t toInt(const Value& v) { return static_cast<std::int64_t>(num(v)); }
    Value ternary()
    {
        Value a = orE();
        if (eat("if"))
        {
            Value c = orE();
            if (! eat("else")) throw SyntaxError();
            Value b = ternary();
            return env == nullptr || truth(c) ? a : b;
        }
        return a;
    }
    Value orE()
    {
        Value a = andE();
        while (eat("or")) { Value b = andE(); if (env && ! truth(a)) a = b; }
        return a;
    }
    Value andE()
    {
        Value a = notE();
        while (eat("and")) { Value b = notE(); if (env && truth(a)) a = b; }
        return a;
    }
    Value notE()
    {
        if (eat("not")) { Value a = notE(); return env ? Value(! truth(a)) : Value(); }
        return cmp();
    }
    Value cmp()
    {
        Value a = add();
        for (;;)
        {
            const char* op = nullptr;
            for (const char* o : { "==", "!=", "<=", ">=", "<", ">" })
                if (eat(o)) { op = o; break; }
            if (! op) return a;
            Value b = add();
            if (! env) continue;
            int c;
            if (std::holds_alternative<std::string>(a.value) || std::holds_alternative<std::string>(b.value))
            {
                if (a.value.index() != b.value.index()) { if (op[0] == '=') { a = Value(false); continue; } if (op[0] == '!') { a = Value(true); continue; } throw EvalError(); }
                c = std::get<std::string>(a.value).compare(std::get<std::string>(b.value));
            }
            else
            {
                const double x = num(a), y = num(b);
                c = x < y ? -1 : (x > y ? 1 : 0);
            }
            const std::string o = op;
            a = Value(o == "==" ? c == 0 : o == "!=" ? c != 0 : o == "<=" ? c <= 0 : o == ">=" ? c >= 0 : o == "<" ? c < 0 : c > 0);
        }
    }
    Value add()
    {
        Value a = mul();
        for (;;)
        {
            ws();
            if (i >= s.size() || (s[i] != '+' && s[i] != '-')) return a;
            const char op = s[i++];
            Value b = mul();
            if (! env) continue;
            if (op == '+' && std::holds_alternative<std::string>(a.value) && std::holds_alternative<std::string>(b.value)) { a = Value(std::get<std::string>(a.value) + std::get<std::string>(b.value)); continue; }
            if (isInt(a) && isInt(b)) a = Value(op == '+' ? toInt(a) + toInt(b) : toInt(a) - toInt(b));
            else a = Value(op == '+' ? num(a) + num(b) : num(a) - num(b));
        }
    }
    Value mul()
    {
        Value a = unary();
        for (;;)
        {
            ws();
            if (i >= s.size()) return a;
            std::string op;
            if (s.compare(i, 2, "//") == 0) op = "//";
            else if (s[i] == '*' || s[i] == '/' || s[i] == '%') op = s.substr(i, 1);
            else return a;
            i += op.size();
            Value b = unary();
            if (! env) continue;
            if (op == "*") { a = isInt(a) && isInt(b) ? Value(toInt(a) * toInt(b)) : Value(num(a) * num(b)); continue; }
            if (num(b) == 0) throw EvalError();
            if (op == "/") a = Value(num(a) / num(b));
            else if (op == "//") a = isInt(a) && isInt(b) ? Value(static_cast<std::int64_t>(std::floor(num(a) / num(b)))) : Value(std::floor(num(a) / num(b)));
            else
            {
                const double m = num(a) - num(b) * std::floor(num(a) / num(b));
                a = isInt(a) && isInt(b) ? Value(static_cast<std::int64_t>(m)) : Value(m);
            }
        }
    }
    Value unary()
    {
        ws();
        if (i < s.size() && s[i] == '-')
        {
            ++i;
            Value a = unary();
            if (! env) return a;
            return isInt(a) ? Value(-toInt(a)) : Value(-num(a));
        }
        if (i < s.size() && s[i] == '+') { ++i; return unary(); }
        Value a = post();
        if (eat("**")) { Value b = unary(); if (env) a = Value(std::pow(num(a), num(b))); }
        return a;
    }
    Value post()
    {
        Value a = atom();
        while (eat("["))
        {
            Value b = ternary();
            if (! eat("]")) throw SyntaxError();
            if (! env) continue;
            auto* l = std::get_if<std::vector<Value>>(&a.value);
            if (! l) throw EvalError();
            std::int64_t n = toInt(b);
            if (n < 0) n += static_cast<std::int64_t>(l->size());
            if (n < 0 || n >= static_cast<std::int64_t>(l->size())) throw EvalError();
            Value e = (*l)[static_cast<size_t>(n)];
            a = e;
        }
        return a;
    }
    Value atom()
    {
        ws();
        if (i >= s.size()) throw SyntaxError();
        const char c = s[i];
        if (c == '(')
        {
            ++i;
            Value a = ternary();
            if (! eat(")")) throw SyntaxError();
            return a;
        }
        if (c == '[')
        {
            ++i;
            std::vector<Value> l;
            if (! eat("]"))
                for (;;)
                {
                    l.push_back(ternary());
                    if (eat("]")) break;
                    if (! eat(",")) throw SyntaxError();
                }
            return Value(l);
        }
        if (c == '\'' || c == '"')
        {
            const size_t e = s.find(c, i + 1);
            if (e == std::string::npos) throw SyntaxError();
            Value v(s.substr(i + 1, e - i - 1));
            i = e + 1;
            return v;
        }
        if (std::isdigit(static_cast<unsigned char>(c)) || c == '.')
        {
            size_t j = i;
            bool dbl = false;
            while (j < s.size() && (std::isdigit(static_cast<unsigned char>(s[j])) || s[j] == '.' || s[j] == 'e' || s[j] == 'E' || ((s[j] == '-' || s[j] == '+') && j > i && (s[j - 1] == 'e' || s[j - 1] == 'E'))))
            {
                if (! std::isdigit(static_cast<unsigned char>(s[j]))) dbl = true;
                ++j;
            }
            const std::string t = s.substr(i, j - i);
            char* end = nullptr;
            const double d = std::strtod(t.c_str(), &end);
            if (end != t.c_str() + t.size() || (j < s.size() && (std::isalpha(static_cast<unsigned char>(s[j])) || s[j] == '_'))) throw SyntaxError();
            i = j;
            return dbl ? Value(d) : Value(static_cast<std::int64_t>(std::strtoll(t.c_str(), nullptr, 10)));
        }
        if (std::isalpha(static_cast<unsigned char>(c)) || c == '_')
        {
            size_t j = i;
            while (j < s.size() && (std::isalnum(static_cast<unsigned char>(s[j])) || s[j] == '_')) ++j;
            const std::string id = s.substr(i, j - i);
            i = j;
            if (id == "True" || id == "true") return Value(true);
            if (id == "False" || id == "false") return Value(false);
            if (id == "if" || id == "else" || id == "and" || id == "or" || id == "not") throw SyntaxError();
            if (eat("("))
            {
                std::vector<Value> a;
                if (! eat(")"))
                    for (;;)
                    {
                        a.push_back(ternary());
                        if (eat(")")) break;
                        if (! eat(",")) throw SyntaxError();
                    }
                if (! env) return Value();
                return call(id, a);
            }
            if (! env) return Value();
            std::optional<Value> v = env->get(id);
            if (! v.has_value()) throw EvalError();
            return *v;
        }
        throw SyntaxError();
    }
    static Value call(const std::string& f, const std::vector<Value>& a)
    {
        if (a.empty()) throw EvalError();
        if (f == "int") return Value(static_cast<std::int64_t>(num(a[0])));
        if (f == "float") return Value(num(a[0]));
        if (f == "str") return Value(a[0].toString());
        if (f == "abs") return isInt(a[0]) ? Value(static_cast<std::int64_t>(std::llabs(toInt(a[0])))) : Value(std::fabs(num(a[0])));
        if (f == "round") return a.size() > 1 ? Value(std::round(num(a[0]) * std::pow(10, num(a[1]))) / std::pow(10, num(a[1]))) : Value(static_cast<std::int64_t>(std::llround(num(a[0]))));
        if (f == "min" || f == "max")
        {
            Value r = a[0];
            for (const Value& v : a) if (f == "min" ? num(v) < num(r) : num(v) > num(r)) r = v;
            return r;
        }
        throw EvalError();
    }
};
} // namespace
eval::Result ast::ExprPtr::evaluate(const env::Environment* env) const
{
    try
    {
        P p{ text, env };
        return p.ternary();
    }
    catch (const EvalError&)
    {
    }
    catch (const SyntaxError&)
    {
    }
    return zeus::unexpected<eval::error_t>(eval::error_t::Failed);
}
zeus::expected<ast::ExprPtr, parser::error_t> parser::parse(std::string_view text)
{
    ast::ExprPtr e{ std::string(text) };
    try
    {
        P p{ e.text, nullptr };
        p.ternary();
        p.ws();
        if (p.i == e.text.size()) return e;
    }
    catch (const SyntaxError&)
    {
    }
    catch (const EvalError&)
    {
    }
    return zeus::unexpected<error_t>(error_t::Syntax);
}
} // namespace CuraFormulaeEngine
