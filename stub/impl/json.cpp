#include <wblib/json/json.h>

#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <limits>
#include <ostream>
#include <sstream>

namespace Json
{
    namespace
    {
        const Value NullV;
        [[noreturn]] void Fail(const char* m)
        {
            throw LogicError(m);
        }
        std::string FmtDouble(double d, int prec)
        {
            char b[64];
            snprintf(b, sizeof(b), "%.*g", prec, d);
            if (!strpbrk(b, ".eEn"))
                strcat(b, ".0");
            return b;
        }
    }
    const Value& Value::nullSingleton()
    {
        return NullV;
    }
    Value::Value(ValueType t): T(t), I(0)
    {
        switch (t) {
            case stringValue:
                S = new std::string;
                break;
            case arrayValue:
                A = new TArr;
                break;
            case objectValue:
                O = new TMap;
                break;
            case realValue:
                D = 0;
                break;
            default:
                break;
        }
    }
    Value::Value(Int v): T(intValue), I(v)
    {}
    Value::Value(UInt v): T(uintValue), U(v)
    {}
    Value::Value(Int64 v): T(intValue), I(v)
    {}
    Value::Value(UInt64 v): T(uintValue), U(v)
    {}
    Value::Value(double v): T(realValue), D(v)
    {}
    Value::Value(const char* v): T(stringValue), S(new std::string(v))
    {}
    Value::Value(const std::string& v): T(stringValue), S(new std::string(v))
    {}
    Value::Value(bool v): T(booleanValue), I(0)
    {
        B = v;
    }
    Value::Value(const Value& o): T(o.T), I(o.I)
    {
        switch (T) {
            case stringValue:
                S = new std::string(*o.S);
                break;
            case arrayValue:
                A = new TArr(*o.A);
                break;
            case objectValue:
                O = new TMap(*o.O);
                break;
            default:
                break;
        }
    }
    Value::Value(Value&& o) noexcept: T(o.T), I(o.I)
    {
        o.T = nullValue;
        o.I = 0;
    }
    void Value::free_()
    {
        switch (T) {
            case stringValue:
                delete S;
                break;
            case arrayValue:
                delete A;
                break;
            case objectValue:
                delete O;
                break;
            default:
                break;
        }
        T = nullValue;
        I = 0;
    }
    Value::~Value()
    {
        free_();
    }
    void Value::swap(Value& o)
    {
        std::swap(T, o.T);
        std::swap(I, o.I);
    }
    Value& Value::operator=(const Value& o)
    {
        Value t(o);
        swap(t);
        return *this;
    }
    Value& Value::operator=(Value&& o) noexcept
    {
        Value t(std::move(o));
        swap(t);
        return *this;
    }
    bool Value::operator==(const Value& o) const
    {
        if (T != o.T)
            return false;
        switch (T) {
            case nullValue:
                return true;
            case intValue:
                return I == o.I;
            case uintValue:
                return U == o.U;
            case realValue:
                return D == o.D;
            case booleanValue:
                return B == o.B;
            case stringValue:
                return *S == *o.S;
            case arrayValue:
                return *A == *o.A;
            case objectValue:
                return *O == *o.O;
        }
        return false;
    }
    bool Value::operator<(const Value& o) const
    {
        if (T != o.T)
            return T < o.T;
        switch (T) {
            case nullValue:
                return false;
            case intValue:
                return I < o.I;
            case uintValue:
                return U < o.U;
            case realValue:
                return D < o.D;
            case booleanValue:
                return B < o.B;
            case stringValue:
                return *S < *o.S;
            case arrayValue:
                return A->size() != o.A->size() ? A->size() < o.A->size() : *A < *o.A;
            case objectValue:
                return O->size() != o.O->size() ? O->size() < o.O->size() : *O < *o.O;
        }
        return false;
    }
    const char* Value::asCString() const
    {
        if (T != stringValue)
            Fail("in Json::Value::asCString(): requires stringValue");
        return S->c_str();
    }
    std::string Value::asString() const
    {
        switch (T) {
            case nullValue:
                return "";
            case stringValue:
                return *S;
            case booleanValue:
                return B ? "true" : "false";
            case intValue:
                return std::to_string(I);
            case uintValue:
                return std::to_string(U);
            case realValue:
                return FmtDouble(D, 17);
            default:
                Fail("Type is not convertible to string");
        }
    }
    bool Value::isInt() const
    {
        switch (T) {
            case intValue:
                return I >= INT32_MIN && I <= INT32_MAX;
            case uintValue:
                return U <= INT32_MAX;
            case realValue:
                return D >= INT32_MIN && D <= INT32_MAX && D == std::floor(D);
            default:
                return false;
        }
    }
    bool Value::isUInt() const
    {
        switch (T) {
            case intValue:
                return I >= 0 && I <= (int64_t)UINT32_MAX;
            case uintValue:
                return U <= UINT32_MAX;
            case realValue:
                return D >= 0 && D <= UINT32_MAX && D == std::floor(D);
            default:
                return false;
        }
    }
    bool Value::isInt64() const
    {
        switch (T) {
            case intValue:
                return true;
            case uintValue:
                return U <= (uint64_t)INT64_MAX;
            case realValue:
                return D >= -9223372036854775808.0 && D < 9223372036854775808.0 && D == std::floor(D);
            default:
                return false;
        }
    }
    bool Value::isUInt64() const
    {
        switch (T) {
            case intValue:
                return I >= 0;
            case uintValue:
                return true;
            case realValue:
                return D >= 0 && D < 18446744073709551616.0 && D == std::floor(D);
            default:
                return false;
        }
    }
    bool Value::isIntegral() const
    {
        switch (T) {
            case intValue:
            case uintValue:
                return true;
            case realValue:
                return D >= -9223372036854775808.0 && D < 18446744073709551616.0 && D == std::floor(D);
            default:
                return false;
        }
    }
    Int Value::asInt() const
    {
        switch (T) {
            case intValue:
            case uintValue:
                if (!isInt())
                    Fail("LargestInt out of Int range");
                return T == intValue ? (Int)I : (Int)U;
            case realValue:
                if (!(D >= INT32_MIN && D <= INT32_MAX))
                    Fail("double out of Int range");
                return (Int)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                Fail("Value is not convertible to Int.");
        }
    }
    UInt Value::asUInt() const
    {
        switch (T) {
            case intValue:
            case uintValue:
                if (!isUInt())
                    Fail("LargestInt out of UInt range");
                return T == intValue ? (UInt)I : (UInt)U;
            case realValue:
                if (!(D >= 0 && D <= UINT32_MAX))
                    Fail("double out of UInt range");
                return (UInt)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                Fail("Value is not convertible to UInt.");
        }
    }
    Int64 Value::asInt64() const
    {
        switch (T) {
            case intValue:
                return I;
            case uintValue:
                if (!isInt64())
                    Fail("LargestUInt out of Int64 range");
                return (Int64)U;
            case realValue:
                if (!(D >= -9223372036854775808.0 && D < 9223372036854775808.0))
                    Fail("double out of Int64 range");
                return (Int64)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                Fail("Value is not convertible to Int64.");
        }
    }
    UInt64 Value::asUInt64() const
    {
        switch (T) {
            case intValue:
                if (I < 0)
                    Fail("LargestInt out of UInt64 range");
                return (UInt64)I;
            case uintValue:
                return U;
            case realValue:
                if (!(D >= 0 && D < 18446744073709551616.0))
                    Fail("double out of UInt64 range");
                return (UInt64)D;
            case nullValue:
                return 0;
            case booleanValue:
                return B;
            default:
                Fail("Value is not convertible to UInt64.");
        }
    }
    double Value::asDouble() const
    {
        switch (T) {
            case intValue:
                return (double)I;
            case uintValue:
                return (double)U;
            case realValue:
                return D;
            case nullValue:
                return 0.0;
            case booleanValue:
                return B ? 1.0 : 0.0;
            default:
                Fail("Value is not convertible to double.");
        }
    }
    bool Value::asBool() const
    {
        switch (T) {
            case booleanValue:
                return B;
            case nullValue:
                return false;
            case intValue:
                return I != 0;
            case uintValue:
                return U != 0;
            case realValue:
                return D != 0.0 && !std::isnan(D);
            default:
                Fail("Value is not convertible to bool.");
        }
    }
    bool Value::isConvertibleTo(ValueType other) const
    {
        switch (other) {
            case nullValue:
                return (isNumeric() && asDouble() == 0.0) || (T == booleanValue && !B) || (T == stringValue && S->empty()) ||
                       (T == arrayValue && A->empty()) || (T == objectValue && O->empty()) || T == nullValue;
            case intValue:
                return isInt() || (T == realValue && D >= INT32_MIN && D <= INT32_MAX) || T == booleanValue || T == nullValue;
            case uintValue:
                return isUInt() || (T == realValue && D >= 0 && D <= UINT32_MAX) || T == booleanValue || T == nullValue;
            case realValue:
            case booleanValue:
                return isNumeric() || T == booleanValue || T == nullValue;
            case stringValue:
                return isNumeric() || T == booleanValue || T == stringValue || T == nullValue;
            case arrayValue:
                return T == arrayValue || T == nullValue;
            case objectValue:
                return T == objectValue || T == nullValue;
        }
        return false;
    }
    ArrayIndex Value::size() const
    {
        if (T == arrayValue)
            return A->size();
        if (T == objectValue)
            return O->size();
        return 0;
    }
    bool Value::empty() const
    {
        if (isNull() || isArray() || isObject())
            return size() == 0;
        return false;
    }
    void Value::clear()
    {
        if (T == arrayValue)
            A->clear();
        else if (T == objectValue)
            O->clear();
        else if (T != nullValue)
            Fail("in Json::Value::clear(): requires complex value");
    }
    void Value::resize(ArrayIndex n)
    {
        if (T == nullValue)
            *this = Value(arrayValue);
        if (T != arrayValue)
            Fail("in Json::Value::resize(): requires arrayValue");
        A->resize(n);
    }
    Value& Value::operator[](ArrayIndex i)
    {
        if (T == nullValue)
            *this = Value(arrayValue);
        if (T != arrayValue)
            Fail("in Json::Value::operator[](ArrayIndex): requires arrayValue");
        if (i >= A->size())
            A->resize(i + 1);
        return (*A)[i];
    }
    Value& Value::operator[](int i)
    {
        if (i < 0)
            Fail("in Json::Value::operator[](int index): index cannot be negative");
        return (*this)[(ArrayIndex)i];
    }
    const Value& Value::operator[](ArrayIndex i) const
    {
        if (T == nullValue)
            return NullV;
        if (T != arrayValue)
            Fail("in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
        return i < A->size() ? (*A)[i] : NullV;
    }
    const Value& Value::operator[](int i) const
    {
        if (i < 0)
            Fail("in Json::Value::operator[](int index) const: index cannot be negative");
        return (*this)[(ArrayIndex)i];
    }
    Value& Value::operator[](const std::string& k)
    {
        if (T == nullValue)
            *this = Value(objectValue);
        if (T != objectValue)
            Fail("in Json::Value::resolveReference(key, end): requires objectValue");
        return (*O)[k];
    }
    const Value& Value::operator[](const std::string& k) const
    {
        if (T == nullValue)
            return NullV;
        if (T != objectValue)
            Fail("in Json::Value::find(begin, end): requires objectValue or nullValue");
        auto it = O->find(k);
        return it == O->end() ? NullV : it->second;
    }
    Value Value::get(const std::string& k, const Value& def) const
    {
        if (T == nullValue)
            return def;
        if (T != objectValue)
            Fail("in Json::Value::find(begin, end): requires objectValue or nullValue");
        auto it = O->find(k);
        return it == O->end() ? def : it->second;
    }
    Value Value::get(ArrayIndex i, const Value& def) const
    {
        return T == arrayValue && i < A->size() ? (*A)[i] : def;
    }
    bool Value::isMember(const std::string& k) const
    {
        if (T == nullValue)
            return false;
        if (T != objectValue)
            Fail("in Json::Value::find(begin, end): requires objectValue or nullValue");
        return O->count(k) != 0;
    }
    void Value::removeMember(const std::string& k)
    {
        if (T == nullValue)
            return;
        if (T != objectValue)
            Fail("in Json::Value::removeMember(): requires objectValue");
        O->erase(k);
    }
    bool Value::removeMember(const std::string& k, Value* removed)
    {
        if (T != objectValue)
            return false;
        auto it = O->find(k);
        if (it == O->end())
            return false;
        if (removed)
            *removed = it->second;
        O->erase(it);
        return true;
    }
    bool Value::removeIndex(ArrayIndex i, Value* removed)
    {
        if (T != arrayValue || i >= A->size())
            return false;
        if (removed)
            *removed = (*A)[i];
        A->erase(A->begin() + i);
        return true;
    }
    Value& Value::append(const Value& v)
    {
        return append(Value(v));
    }
    Value& Value::append(Value&& v)
    {
        if (T == nullValue)
            *this = Value(arrayValue);
        if (T != arrayValue)
            Fail("in Json::Value::append: requires arrayValue");
        A->push_back(std::move(v));
        return A->back();
    }
    Members Value::getMemberNames() const
    {
        Members m;
        if (T == objectValue)
            for (auto& kv: *O)
                m.push_back(kv.first);
        return m;
    }

    namespace
    {
        void Quote(const std::string& s, std::string& out)
        {
            out += '"';
            for (unsigned char c: s) {
                switch (c) {
                    case '"':
                        out += "\\\"";
                        break;
                    case '\\':
                        out += "\\\\";
                        break;
                    case '\b':
                        out += "\\b";
                        break;
                    case '\f':
                        out += "\\f";
                        break;
                    case '\n':
                        out += "\\n";
                        break;
                    case '\r':
                        out += "\\r";
                        break;
                    case '\t':
                        out += "\\t";
                        break;
                    default:
                        if (c < 0x20) {
                            char b[8];
                            snprintf(b, sizeof(b), "\\u%04x", c);
                            out += b;
                        } else
                            out += (char)c;
                }
            }
            out += '"';
        }
        void Write(const Value& v, const std::string& ind, int prec, std::string& out, const std::string& cur)
        {
            switch (v.type()) {
                case nullValue:
                    out += "null";
                    break;
                case stringValue:
                    Quote(v.asString(), out);
                    break;
                case realValue: {
                    double d = v.asDouble();
                    if (std::isnan(d))
                        out += "null";
                    else if (std::isinf(d))
                        out += d < 0 ? "-1e+9999" : "1e+9999";
                    else
                        out += FmtDouble(d, prec);
                    break;
                }
                case arrayValue: {
                    out += '[';
                    bool f = true;
                    auto in = cur + ind;
                    for (auto& e: v) {
                        if (!f)
                            out += ',';
                        f = false;
                        if (!ind.empty())
                            out += "\n" + in;
                        Write(e, ind, prec, out, in);
                    }
                    if (!f && !ind.empty())
                        out += "\n" + cur;
                    out += ']';
                    break;
                }
                case objectValue: {
                    out += '{';
                    bool f = true;
                    auto in = cur + ind;
                    for (auto it = v.begin(); it != v.end(); ++it) {
                        if (!f)
                            out += ',';
                        f = false;
                        if (!ind.empty())
                            out += "\n" + in;
                        Quote(it.name(), out);
                        out += ind.empty() ? ":" : " : ";
                        Write(*it, ind, prec, out, in);
                    }
                    if (!f && !ind.empty())
                        out += "\n" + cur;
                    out += '}';
                    break;
                }
                default:
                    out += v.asString();
            }
        }
        struct W: StreamWriter
        {
            std::string Ind;
            int Prec;
            int write(const Value& root, std::ostream* s) override
            {
                std::string out;
                Write(root, Ind, Prec, out, "");
                *s << out;
                return 0;
            }
        };

        struct P
        {
            const char* p;
            const char* e;
            const char* b;
            std::string err;
            bool fail(const std::string& m)
            {
                if (err.empty()) {
                    int line = 1, col = 1;
                    for (auto q = b; q < p && q < e; ++q) {
                        if (*q == '\n') {
                            ++line;
                            col = 1;
                        } else
                            ++col;
                    }
                    err = "* Line " + std::to_string(line) + ", Column " + std::to_string(col) + "\n  " + m + "\n";
                }
                return false;
            }
            void ws()
            {
                while (p < e) {
                    if (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') {
                        ++p;
                    } else if (*p == '/' && p + 1 < e && p[1] == '/') {
                        while (p < e && *p != '\n')
                            ++p;
                    } else if (*p == '/' && p + 1 < e && p[1] == '*') {
                        p += 2;
                        while (p + 1 < e && !(p[0] == '*' && p[1] == '/'))
                            ++p;
                        p = p + 2 <= e ? p + 2 : e;
                    } else
                        break;
                }
            }
            static void utf8(std::string& s, unsigned c)
            {
                if (c < 0x80)
                    s += (char)c;
                else if (c < 0x800) {
                    s += (char)(0xC0 | (c >> 6));
                    s += (char)(0x80 | (c & 0x3F));
                } else if (c < 0x10000) {
                    s += (char)(0xE0 | (c >> 12));
                    s += (char)(0x80 | ((c >> 6) & 0x3F));
                    s += (char)(0x80 | (c & 0x3F));
                } else {
                    s += (char)(0xF0 | (c >> 18));
                    s += (char)(0x80 | ((c >> 12) & 0x3F));
                    s += (char)(0x80 | ((c >> 6) & 0x3F));
                    s += (char)(0x80 | (c & 0x3F));
                }
            }
            bool hex4(unsigned& c)
            {
                if (e - p < 4)
                    return fail("Bad unicode escape sequence in string: four digits expected.");
                c = 0;
                for (int i = 0; i < 4; ++i, ++p) {
                    int d = *p >= '0' && *p <= '9'   ? *p - '0'
                            : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10
                            : *p >= 'A' && *p <= 'F' ? *p - 'A' + 10
                                                     : -1;
                    if (d < 0)
                        return fail("Bad unicode escape sequence in string: hexadecimal digit expected.");
                    c = c * 16 + d;
                }
                return true;
            }
            bool str(std::string& s)
            {
                ++p;
                while (p < e && *p != '"') {
                    if (*p == '\\') {
                        ++p;
                        if (p >= e)
                            return fail("Empty escape sequence in string");
                        char c = *p++;
                        switch (c) {
                            case 'n':
                                s += '\n';
                                break;
                            case 't':
                                s += '\t';
                                break;
                            case 'r':
                                s += '\r';
                                break;
                            case 'b':
                                s += '\b';
                                break;
                            case 'f':
                                s += '\f';
                                break;
                            case '"':
                            case '\\':
                            case '/':
                                s += c;
                                break;
                            case 'u': {
                                unsigned u = 0, u2 = 0;
                                if (!hex4(u))
                                    return false;
                                if (u >= 0xD800 && u < 0xDC00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') {
                                    p += 2;
                                    if (!hex4(u2))
                                        return false;
                                    u = 0x10000 + ((u & 0x3FF) << 10) + (u2 & 0x3FF);
                                }
                                utf8(s, u);
                                break;
                            }
                            default:
                                return fail("Bad escape sequence in string");
                        }
                    } else
                        s += *p++;
                }
                if (p >= e)
                    return fail("Missing '\"'");
                ++p;
                return true;
            }
            bool num(Value& v)
            {
                const char* s = p;
                bool real = false;
                if (p < e && *p == '-')
                    ++p;
                if (p >= e || !isdigit((unsigned char)*p))
                    return fail("Syntax error: value, object or array expected.");
                while (p < e && (isdigit((unsigned char)*p) || strchr("+-.eE", *p))) {
                    if (strchr(".eE", *p))
                        real = true;
                    ++p;
                }
                std::string t(s, p);
                char* end = nullptr;
                if (!real) {
                    errno = 0;
                    if (t[0] == '-') {
                        long long x = strtoll(t.c_str(), &end, 10);
                        if (!errno && !*end) {
                            v = Value((Int64)x);
                            return true;
                        }
                    } else {
                        unsigned long long x = strtoull(t.c_str(), &end, 10);
                        if (!errno && !*end) {
                            if (x <= (unsigned long long)INT64_MAX)
                                v = Value((Int64)x);
                            else
                                v = Value((UInt64)x);
                            return true;
                        }
                    }
                }
                double d = strtod(t.c_str(), &end);
                if (*end)
                    return fail("'" + t + "' is not a number.");
                v = Value(d);
                return true;
            }
            bool lit(const char* l)
            {
                size_t n = strlen(l);
                if ((size_t)(e - p) >= n && !memcmp(p, l, n)) {
                    p += n;
                    return true;
                }
                return false;
            }
            bool val(Value& v, int depth)
            {
                if (depth > 1000)
                    throw RuntimeError("Exceeded stackLimit in readValue().");
                ws();
                if (p >= e)
                    return fail("Syntax error: value, object or array expected.");
                switch (*p) {
                    case '{': {
                        v = Value(objectValue);
                        ++p;
                        ws();
                        if (p < e && *p == '}') {
                            ++p;
                            return true;
                        }
                        while (true) {
                            ws();
                            if (p >= e || *p != '"')
                                return fail("Missing '}' or object member name");
                            std::string k;
                            if (!str(k))
                                return false;
                            ws();
                            if (p >= e || *p != ':')
                                return fail("Missing ':' after object member name");
                            ++p;
                            Value c;
                            if (!val(c, depth + 1))
                                return false;
                            v[k] = std::move(c);
                            ws();
                            if (p < e && *p == ',') {
                                ++p;
                                continue;
                            }
                            if (p < e && *p == '}') {
                                ++p;
                                return true;
                            }
                            return fail("Missing ',' or '}' in object declaration");
                        }
                    }
                    case '[': {
                        v = Value(arrayValue);
                        ++p;
                        ws();
                        if (p < e && *p == ']') {
                            ++p;
                            return true;
                        }
                        while (true) {
                            Value c;
                            if (!val(c, depth + 1))
                                return false;
                            v.append(std::move(c));
                            ws();
                            if (p < e && *p == ',') {
                                ++p;
                                continue;
                            }
                            if (p < e && *p == ']') {
                                ++p;
                                return true;
                            }
                            return fail("Missing ',' or ']' in array declaration");
                        }
                    }
                    case '"': {
                        std::string s;
                        if (!str(s))
                            return false;
                        v = Value(s);
                        return true;
                    }
                    case 't':
                        if (lit("true")) {
                            v = Value(true);
                            return true;
                        }
                        break;
                    case 'f':
                        if (lit("false")) {
                            v = Value(false);
                            return true;
                        }
                        break;
                    case 'n':
                        if (lit("null")) {
                            v = Value();
                            return true;
                        }
                        break;
                    default:
                        return num(v);
                }
                return fail("Syntax error: value, object or array expected.");
            }
        };
        struct R: CharReader
        {
            bool parse(const char* b, const char* e, Value* root, std::string* errs) override
            {
                P ps{b, e, b, {}};
                Value v;
                bool ok = ps.val(v, 0);
                if (ok)
                    *root = std::move(v);
                if (errs)
                    *errs = ps.err;
                return ok;
            }
        };
    }
    std::string Value::toStyledString() const
    {
        std::string o;
        Write(*this, "\t", 17, o, "");
        return o + "\n";
    }
    StreamWriterBuilder::StreamWriterBuilder()
    {
        Settings["indentation"] = "\t";
        Settings["precision"] = 17;
    }
    StreamWriter* StreamWriterBuilder::newStreamWriter() const
    {
        auto w = new W;
        w->Ind = Settings["indentation"].asString();
        w->Prec = Settings["precision"].asInt();
        return w;
    }
    std::string writeString(const StreamWriterBuilder& b, const Value& root)
    {
        std::ostringstream s;
        std::unique_ptr<StreamWriter> w(b.newStreamWriter());
        w->write(root, &s);
        return s.str();
    }
    CharReader* CharReaderBuilder::newCharReader() const
    {
        return new R;
    }
    bool parseFromStream(const CharReaderBuilder& b, std::istream& in, Value* root, std::string* errs)
    {
        std::ostringstream s;
        s << in.rdbuf();
        auto t = s.str();
        std::unique_ptr<CharReader> r(b.newCharReader());
        return r->parse(t.data(), t.data() + t.size(), root, errs);
    }
    std::ostream& operator<<(std::ostream& s, const Value& v)
    {
        return s << v.toStyledString();
    }
}
