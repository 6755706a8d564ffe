// Stand-in for <wblib/json/json.h> (jsoncpp): the part of the jsoncpp API wb-mqtt-serial uses.
// Behaviour follows jsoncpp: objects are key-sorted, numeric conversions are range-checked,
// asString() of a double prints %.17g, operator[] on a const object returns null when absent.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <iosfwd>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace Json
{
    using Int = int;
    using UInt = unsigned int;
    using Int64 = int64_t;
    using UInt64 = uint64_t;
    using LargestInt = int64_t;
    using LargestUInt = uint64_t;
    using ArrayIndex = unsigned int;
    using String = std::string;

    class RuntimeError: public std::runtime_error
    {
    public:
        using std::runtime_error::runtime_error;
    };
    class LogicError: public std::logic_error
    {
    public:
        using std::logic_error::logic_error;
    };

    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };

    class Value;
    using Members = std::vector<std::string>;

    template<bool Const> class IterT;

    class Value
    {
    public:
        using ArrayIndex = Json::ArrayIndex;
        using Int = Json::Int;
        using UInt = Json::UInt;
        using Int64 = Json::Int64;
        using UInt64 = Json::UInt64;
        using Members = Json::Members;
        using iterator = IterT<false>;
        using const_iterator = IterT<true>;
        static const Value& nullSingleton();

        Value(ValueType t = nullValue);
        Value(Int v);
        Value(UInt v);
        Value(Int64 v);
        Value(UInt64 v);
        Value(long long v): Value(static_cast<Int64>(v))
        {}
        Value(unsigned long long v): Value(static_cast<UInt64>(v))
        {}
        Value(double v);
        Value(const char* v);
        Value(const std::string& v);
        Value(bool v);
        Value(const Value& o);
        Value(Value&& o) noexcept;
        ~Value();
        Value& operator=(const Value& o);
        Value& operator=(Value&& o) noexcept;
        void swap(Value& o);

        ValueType type() const
        {
            return T;
        }
        bool operator==(const Value& o) const;
        bool operator!=(const Value& o) const
        {
            return !(*this == o);
        }
        bool operator<(const Value& o) const;

        const char* asCString() const;
        std::string asString() const;
        Int asInt() const;
        UInt asUInt() const;
        Int64 asInt64() const;
        UInt64 asUInt64() const;
        LargestInt asLargestInt() const
        {
            return asInt64();
        }
        LargestUInt asLargestUInt() const
        {
            return asUInt64();
        }
        float asFloat() const
        {
            return static_cast<float>(asDouble());
        }
        double asDouble() const;
        bool asBool() const;

        bool isNull() const
        {
            return T == nullValue;
        }
        bool isBool() const
        {
            return T == booleanValue;
        }
        bool isInt() const;
        bool isInt64() const;
        bool isUInt() const;
        bool isUInt64() const;
        bool isIntegral() const;
        bool isDouble() const
        {
            return T == intValue || T == uintValue || T == realValue;
        }
        bool isNumeric() const
        {
            return isDouble();
        }
        bool isString() const
        {
            return T == stringValue;
        }
        bool isArray() const
        {
            return T == arrayValue;
        }
        bool isObject() const
        {
            return T == objectValue;
        }
        bool isConvertibleTo(ValueType other) const;

        ArrayIndex size() const;
        bool empty() const;
        explicit operator bool() const
        {
            return !isNull();
        }
        void clear();
        void resize(ArrayIndex n);

        Value& operator[](ArrayIndex i);
        Value& operator[](int i);
        const Value& operator[](ArrayIndex i) const;
        const Value& operator[](int i) const;
        Value& operator[](const char* k)
        {
            return (*this)[std::string(k)];
        }
        const Value& operator[](const char* k) const
        {
            return (*this)[std::string(k)];
        }
        Value& operator[](const std::string& k);
        const Value& operator[](const std::string& k) const;
        Value get(const std::string& k, const Value& def) const;
        Value get(const char* k, const Value& def) const
        {
            return get(std::string(k), def);
        }
        Value get(ArrayIndex i, const Value& def) const;
        bool isMember(const std::string& k) const;
        bool isMember(const char* k) const
        {
            return isMember(std::string(k));
        }
        bool isValidIndex(ArrayIndex i) const
        {
            return i < size();
        }
        void removeMember(const std::string& k);
        bool removeMember(const std::string& k, Value* removed);
        bool removeIndex(ArrayIndex i, Value* removed);
        Value& append(const Value& v);
        Value& append(Value&& v);
        Members getMemberNames() const;
        std::string toStyledString() const;

        const_iterator begin() const;
        const_iterator end() const;
        iterator begin();
        iterator end();

    private:
        friend class IterT<true>;
        friend class IterT<false>;
        using TMap = std::map<std::string, Value>;
        using TArr = std::vector<Value>;
        void free_();
        ValueType T;
        union
        {
            int64_t I;
            uint64_t U;
            double D;
            bool B;
            std::string* S;
            TArr* A;
            TMap* O;
        };
    };

    template<bool Const> class IterT
    {
    public:
        using V = std::conditional_t<Const, const Value, Value>;
        using MIt = std::conditional_t<Const, std::map<std::string, Value>::const_iterator, std::map<std::string, Value>::iterator>;
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = Value;
        using difference_type = int;
        using reference = V&;
        using pointer = V*;
        IterT() = default;
        IterT(V* arr, size_t idx): Base(arr), Idx(idx)
        {}
        IterT(V* base, MIt it): Base(base), Map(true), It(it)
        {}
        template<bool C2, class = std::enable_if_t<Const && !C2>>
        IterT(const IterT<C2>& o): Base(o.Base), Idx(o.Idx), Map(o.Map), It(o.It)
        {}
        V& operator*() const
        {
            return Map ? const_cast<V&>(It->second) : *(const_cast<V*>(Base->A->data()) + Idx);
        }
        V* operator->() const
        {
            return &**this;
        }
        IterT& operator++()
        {
            if (Map)
                ++It;
            else
                ++Idx;
            return *this;
        }
        IterT operator++(int)
        {
            auto t = *this;
            ++*this;
            return t;
        }
        IterT& operator--()
        {
            if (Map)
                --It;
            else
                --Idx;
            return *this;
        }
        bool operator==(const IterT& o) const
        {
            return Map ? (o.Map && It == o.It) : (!o.Map && Idx == o.Idx);
        }
        bool operator!=(const IterT& o) const
        {
            return !(*this == o);
        }
        std::string name() const
        {
            return Map ? It->first : std::string();
        }
        Value key() const
        {
            return Map ? Value(It->first) : Value(static_cast<UInt>(Idx));
        }
        UInt index() const
        {
            return Map ? UInt(-1) : static_cast<UInt>(Idx);
        }

    private:
        template<bool> friend class IterT;
        V* Base = nullptr;
        size_t Idx = 0;
        bool Map = false;
        MIt It;
    };
    using ValueIterator = IterT<false>;
    using ValueConstIterator = IterT<true>;

    inline Value::const_iterator Value::begin() const
    {
        if (T == objectValue)
            return const_iterator(this, static_cast<TMap::const_iterator>(O->begin()));
        return const_iterator(this, size_t(0));
    }
    inline Value::const_iterator Value::end() const
    {
        if (T == objectValue)
            return const_iterator(this, static_cast<TMap::const_iterator>(O->end()));
        return const_iterator(this, T == arrayValue ? A->size() : size_t(0));
    }
    inline Value::iterator Value::begin()
    {
        if (T == objectValue)
            return iterator(this, O->begin());
        return iterator(this, size_t(0));
    }
    inline Value::iterator Value::end()
    {
        if (T == objectValue)
            return iterator(this, O->end());
        return iterator(this, T == arrayValue ? A->size() : size_t(0));
    }

    class StreamWriter
    {
    public:
        virtual ~StreamWriter() = default;
        virtual int write(const Value& root, std::ostream* sout) = 0;
    };
    class StreamWriterBuilder
    {
        Value Settings;

    public:
        StreamWriterBuilder();
        Value& operator[](const std::string& k)
        {
            return Settings[k];
        }
        StreamWriter* newStreamWriter() const;
    };
    std::string writeString(const StreamWriterBuilder& b, const Value& root);

    class CharReader
    {
    public:
        virtual ~CharReader() = default;
        virtual bool parse(const char* begin, const char* end, Value* root, std::string* errs) = 0;
    };
    class CharReaderBuilder
    {
        Value Settings;

    public:
        Value& operator[](const std::string& k)
        {
            return Settings[k];
        }
        CharReader* newCharReader() const;
    };
    bool parseFromStream(const CharReaderBuilder& b, std::istream& in, Value* root, std::string* errs);
    std::ostream& operator<<(std::ostream& s, const Value& v);
}
