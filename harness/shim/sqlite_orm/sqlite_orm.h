// A stand-in for the part of sqlite_orm (not available here) that hgdb uses, on top of the installed libsqlite3: it turns the
// calls into the SQL that sqlite_orm would send.
#ifndef VERIF_SQLITE_ORM_SHIM
#define VERIF_SQLITE_ORM_SHIM
#include <sqlite3.h>

#include <algorithm>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <system_error>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace sqlite_orm {
namespace shim {
struct Error : std::system_error {
    Error(int code, const std::string &m) : std::system_error(code, std::generic_category(), m) {}
};
struct Db {
    sqlite3 *h = nullptr;
    explicit Db(const std::string &file) {
        if (int r = sqlite3_open(file.empty() ? ":memory:" : file.c_str(), &h)) {
            std::string m = sqlite3_errmsg(h);
            sqlite3_close(h);
            throw Error(r, m);
        }
    }
    ~Db() { sqlite3_close(h); }
    void exec(const std::string &s) {
        char *e = nullptr;
        if (int r = sqlite3_exec(h, s.c_str(), nullptr, nullptr, &e)) {
            std::string m = e ? e : "?";
            sqlite3_free(e);
            throw Error(r, m + " in " + s);
        }
    }
};
struct Stmt {
    sqlite3_stmt *s = nullptr;
    sqlite3 *h;
    int n = 0;
    Stmt(sqlite3 *db, const std::string &sql) : h(db) {
        if (int r = sqlite3_prepare_v2(db, sql.c_str(), -1, &s, nullptr)) throw Error(r, std::string(sqlite3_errmsg(db)) + " in " + sql);
    }
    ~Stmt() { sqlite3_finalize(s); }
    bool step() {
        int r = sqlite3_step(s);
        if (r == SQLITE_ROW) return true;
        if (r != SQLITE_DONE) throw Error(r, sqlite3_errmsg(h));
        return false;
    }
    template <class T>
    void bind(const T &v) {
        if constexpr (std::is_convertible_v<T, std::string>) {
            std::string x = v;
            sqlite3_bind_text(s, ++n, x.data(), static_cast<int>(x.size()), SQLITE_TRANSIENT);
        } else if constexpr (std::is_arithmetic_v<T>) {
            sqlite3_bind_int64(s, ++n, static_cast<sqlite3_int64>(v));
        } else {  // unique_ptr
            if (v) bind(*v);
            else sqlite3_bind_null(s, ++n);
        }
    }
    template <class T>
    void get(int i, T &out) {
        if constexpr (std::is_same_v<T, std::string>) {
            auto const *p = reinterpret_cast<const char *>(sqlite3_column_text(s, i));
            out = p ? std::string(p, sqlite3_column_bytes(s, i)) : std::string();
        } else if constexpr (std::is_arithmetic_v<T>) {
            out = static_cast<T>(sqlite3_column_int64(s, i));
        } else {
            if (sqlite3_column_type(s, i) == SQLITE_NULL) out.reset();
            else {
                out = std::make_unique<typename T::element_type>();
                get(i, *out);
            }
        }
    }
};
template <class T>
std::string decl() {
    if constexpr (std::is_same_v<T, std::string>) return "TEXT NOT NULL";
    else if constexpr (std::is_arithmetic_v<T>) return "INTEGER NOT NULL";
    else return "INTEGER";
}
}  // namespace shim

struct primary_key_t {};
inline primary_key_t primary_key() { return {}; }
template <class C, class V>
struct column_t {
    using object = C;
    std::string name;
    V C::*m;
    bool pk;
};
template <class C, class V, class... P>
column_t<C, V> make_column(std::string name, V C::*m, P...) {
    return {std::move(name), m, sizeof...(P) > 0};
}
struct fk_ref {};
template <class C, class V>
struct fk_from {
    template <class D, class W>
    fk_ref references(W D::*) { return {}; }
};
template <class C, class V>
fk_from<C, V> foreign_key(V C::*) { return {}; }

template <class T, class... Cs>
struct table_t {
    using object = T;
    std::string name;
    std::tuple<Cs...> cols;
};
namespace shim {
template <class X>
auto keep(X x) {
    if constexpr (std::is_same_v<X, fk_ref>) return std::tuple<>();
    else return std::tuple<X>(std::move(x));
}
template <class... Cs>
auto to_table(std::string n, std::tuple<Cs...> c) {
    using T = typename std::tuple_element_t<0, std::tuple<Cs...>>::object;
    return table_t<T, Cs...>{std::move(n), std::move(c)};
}
}  // namespace shim
template <class... Xs>
auto make_table(std::string name, Xs... xs) {
    return shim::to_table(std::move(name), std::tuple_cat(shim::keep(std::move(xs))...));
}

// expressions
template <class M>
struct col_t { M m; };
template <class M>
col_t<M> c(M m) { return {m}; }
template <class M, class R>
struct cmp_t { M l; R r; const char *op; };
template <class A, class B>
struct and_t { A a; B b; };
#define VERIF_OP(OP, SQL) \
    template <class M, class R> \
    cmp_t<M, R> operator OP(col_t<M> l, R r) { return {l.m, std::move(r), SQL}; }
VERIF_OP(==, " = ")
VERIF_OP(!=, " != ")
VERIF_OP(<, " < ")
VERIF_OP(<=, " <= ")
VERIF_OP(>, " > ")
VERIF_OP(>=, " >= ")
#undef VERIF_OP
template <class A, class B, class C, class D>
and_t<cmp_t<A, B>, cmp_t<C, D>> operator&&(cmp_t<A, B> a, cmp_t<C, D> b) { return {std::move(a), std::move(b)}; }
template <class A, class B, class C, class D>
and_t<and_t<A, B>, cmp_t<C, D>> operator&&(and_t<A, B> a, cmp_t<C, D> b) { return {std::move(a), std::move(b)}; }
template <class E>
struct where_t { E e; };
template <class E>
where_t<E> where(E e) { return {std::move(e)}; }
template <class M>
struct order_t {
    M m;
    bool down = false;
    order_t desc() const { return {m, true}; }
    order_t asc() const { return {m, false}; }
};
template <class M>
order_t<M> order_by(M m) { return {m}; }
template <class M>
struct length_t { M m; };
template <class M>
length_t<M> length(M m) { return {m}; }
struct limit_t { int64_t n; };
inline limit_t limit(int64_t n) { return {n}; }
template <class... Ms>
struct columns_t { std::tuple<Ms...> m; };
template <class... Ms>
columns_t<Ms...> columns(Ms... m) { return {{m...}}; }
template <class M>
struct distinct_t { M m; };
template <class M>
distinct_t<M> distinct(M m) { return {m}; }
enum class journal_mode { DELETE, TRUNCATE, PERSIST, MEMORY, WAL, OFF };
struct pragma_t {
    void journal_mode(sqlite_orm::journal_mode) {}
};

template <class... Ts>
struct storage_t {
    std::shared_ptr<shim::Db> db;
    std::tuple<Ts...> tables;
    pragma_t pragma;

    struct Sql {
        std::string text;
        std::set<std::string> from;
        std::vector<std::function<void(shim::Stmt &)>> binds;
    };
    template <class T, class F>
    void with_table(F f) const {
        std::apply([&](auto const &...t) { ((std::is_same_v<typename std::decay_t<decltype(t)>::object, T> ? (call(t, f), 0) : 0), ...); }, tables);
    }
    template <class Tab, class F>
    static void call(Tab const &t, F &f) {
        if constexpr (std::is_invocable_v<F, Tab const &>) f(t);
    }
    template <class C, class V>
    std::string name(V C::*m, Sql &q) const {
        std::string out;
        std::apply([&](auto const &...t) { (find(t, m, q, out), ...); }, tables);
        return out;
    }
    template <class T, class... Cs, class C, class V>
    static void find(table_t<T, Cs...> const &t, V C::*m, Sql &q, std::string &out) {
        if constexpr (std::is_same_v<T, C>) {
            std::apply([&](auto const &...c) { (match(t.name, c, m, q, out), ...); }, t.cols);
        }
    }
    template <class CC, class CV, class C, class V>
    static void match(const std::string &table, column_t<CC, CV> const &c, V C::*m, Sql &q, std::string &out) {
        if constexpr (std::is_same_v<CV, V>) {
            if (c.m == m) {
                q.from.insert(table);
                out = "\"" + table + "\".\"" + c.name + "\"";
            }
        }
    }
    template <class M>
    std::string name(length_t<M> const &l, Sql &q) const { return "LENGTH(" + name(l.m, q) + ")"; }
    template <class R>
    void value(R const &r, Sql &q) const {
        if constexpr (std::is_member_pointer_v<R>) q.text += name(r, q);
        else {
            q.text += "?";
            q.binds.emplace_back([r](shim::Stmt &s) { s.bind(r); });
        }
    }
    template <class M, class R>
    void expr(cmp_t<M, R> const &e, Sql &q) const {
        q.text += name(e.l, q) + e.op;
        value(e.r, q);
    }
    template <class A, class B>
    void expr(and_t<A, B> const &e, Sql &q) const {
        expr(e.a, q);
        q.text += " AND ";
        expr(e.b, q);
    }
    template <class E>
    void clause(where_t<E> const &w, Sql &q) const {
        q.text += " WHERE ";
        expr(w.e, q);
    }
    template <class M>
    void clause(order_t<M> const &o, Sql &q) const { q.text += " ORDER BY " + name(o.m, q) + (o.down ? " DESC" : " ASC"); }
    void clause(limit_t const &l, Sql &q) const { q.text += " LIMIT " + std::to_string(l.n); }
    template <class... Cl>
    shim::Stmt prepare(const std::string &what, Sql &q, Cl const &...cl) const {
        (clause(cl, q), ...);
        std::string from;
        for (auto const &t : q.from) from += (from.empty() ? "\"" : ", \"") + t + "\"";
        return shim::Stmt(db->h, "SELECT " + what + " FROM " + from + q.text);
    }

    void sync_schema() {
        std::apply([&](auto const &...t) { (create(t), ...); }, tables);
    }
    template <class T, class... Cs>
    void create(table_t<T, Cs...> const &t) {
        std::string s;
        std::apply([&](auto const &...c) { ((s += (s.empty() ? "\"" : ", \"") + c.name + "\" " + (c.pk ? "INTEGER PRIMARY KEY NOT NULL" : decl(c))), ...); }, t.cols);
        db->exec("CREATE TABLE IF NOT EXISTS \"" + t.name + "\" (" + s + ")");
    }
    template <class C, class V>
    static std::string decl(column_t<C, V> const &) { return shim::decl<V>(); }

    template <class T>
    void replace(T const &o) {
        std::apply([&](auto const &...t) { (put(t, o), ...); }, tables);
    }
    template <class U, class... Cs, class T>
    void put(table_t<U, Cs...> const &t, T const &o) {
        if constexpr (std::is_same_v<U, T>) {
            std::string names, marks;
            std::apply([&](auto const &...c) { ((names += (names.empty() ? "\"" : ", \"") + c.name + "\"", marks += marks.empty() ? "?" : ", ?"), ...); }, t.cols);
            shim::Stmt s(db->h, "REPLACE INTO \"" + t.name + "\" (" + names + ") VALUES (" + marks + ")");
            std::apply([&](auto const &...c) { (s.bind(o.*(c.m)), ...); }, t.cols);
            s.step();
        }
    }
    template <class T, class U, class... Cs>
    void rows(table_t<U, Cs...> const &t, const std::function<void(std::string, std::string, std::function<T(shim::Stmt &)>)> &f) const {
        if constexpr (std::is_same_v<T, U>) {
            std::string names, pk;
            std::apply([&](auto const &...c) { ((names += (names.empty() ? "\"" : ", \"") + t.name + "\".\"" + c.name + "\"", pk = c.pk ? c.name : pk), ...); }, t.cols);
            f(t.name, pk + "\n" + names, [&t](shim::Stmt &s) {
                T o{};
                int i = 0;
                std::apply([&](auto const &...c) { (s.get(i++, o.*(c.m)), ...); }, t.cols);
                return o;
            });
        }
    }
    template <class T, class... Cl>
    std::vector<T> get_all(Cl const &...cl) const {
        std::vector<T> out;
        std::apply([&](auto const &...t) {
            (rows<T>(t, [&](std::string table, std::string names, std::function<T(shim::Stmt &)> get) {
                 Sql q;
                 q.from.insert(table);
                 names = names.substr(names.find('\n') + 1);
                 auto s = prepare(names, q, cl...);
                 for (auto &b : q.binds) b(s);
                 while (s.step()) out.emplace_back(get(s));
             }), ...);
        }, tables);
        return out;
    }
    template <class T, class Id>
    std::unique_ptr<T> get_pointer(Id id) const {
        std::unique_ptr<T> out;
        std::apply([&](auto const &...t) {
            (rows<T>(t, [&](std::string table, std::string names, std::function<T(shim::Stmt &)> get) {
                 auto pk = names.substr(0, names.find('\n'));
                 shim::Stmt s(db->h, "SELECT " + names.substr(names.find('\n') + 1) + " FROM \"" + table + "\" WHERE \"" + pk + "\" = ?");
                 s.bind(id);
                 if (s.step()) out = std::make_unique<T>(get(s));
             }), ...);
        }, tables);
        return out;
    }
    template <class T, class... Cl>
    int count(Cl const &...cl) const { return static_cast<int>(get_all<T>(cl...).size()); }
    template <class C, class V, class... Cl>
    std::vector<V> select(V C::*m, Cl const &...cl) const { return one(m, "", cl...); }
    template <class C, class V, class... Cl>
    std::vector<V> select(distinct_t<V C::*> d, Cl const &...cl) const { return one(d.m, "DISTINCT ", cl...); }
    template <class C, class V, class... Cl>
    std::vector<V> one(V C::*m, const std::string &how, Cl const &...cl) const {
        Sql q;
        auto n = name(m, q);
        auto s = prepare(how + n, q, cl...);
        for (auto &b : q.binds) b(s);
        std::vector<V> out;
        while (s.step()) {
            V v{};
            s.get(0, v);
            out.emplace_back(std::move(v));
        }
        return out;
    }
    template <class M>
    struct type_of;
    template <class C, class V>
    struct type_of<V C::*> { using type = V; };
    template <class... Ms, class... Cl>
    std::vector<std::tuple<typename type_of<Ms>::type...>> select(columns_t<Ms...> const &cs, Cl const &...cl) const {
        Sql q;
        std::string n;
        std::apply([&](auto const &...m) { ((n += (n.empty() ? "" : ", ") + name(m, q)), ...); }, cs.m);
        auto s = prepare(n, q, cl...);
        for (auto &b : q.binds) b(s);
        std::vector<std::tuple<typename type_of<Ms>::type...>> out;
        while (s.step()) {
            std::tuple<typename type_of<Ms>::type...> row;
            int i = 0;
            std::apply([&](auto &...v) { (s.get(i++, v), ...); }, row);
            out.emplace_back(std::move(row));
        }
        return out;
    }
    void begin_transaction() { db->exec("BEGIN"); }
    void commit() { db->exec("COMMIT"); }
    void rollback() { db->exec("ROLLBACK"); }
};
template <class... Ts>
storage_t<Ts...> make_storage(const std::string &file, Ts... ts) {
    return {std::make_shared<shim::Db>(file), std::tuple<Ts...>(std::move(ts)...), {}};
}
}  // namespace sqlite_orm
#endif
