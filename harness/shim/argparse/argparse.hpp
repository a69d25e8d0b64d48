// A stand-in for the part of argparse (not available here) that hgdb-rewrite-vcd uses.
#ifndef VERIF_ARGPARSE_SHIM
#define VERIF_ARGPARSE_SHIM
#include <list>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
namespace argparse {
struct Argument {
    std::vector<std::string> names;
    bool needed = false, used = false;
    std::string value;
    Argument &help(const std::string &) { return *this; }
    Argument &required() { needed = true; return *this; }
    template <class T>
    Argument &default_value(T v) { value = v; return *this; }
};
class ArgumentParser {
public:
    explicit ArgumentParser(std::string name = {}, std::string = {}) : name_(std::move(name)) {}
    template <class... N>
    Argument &add_argument(N... n) {
        args_.push_back({{std::string(n)...}});
        return args_.back();
    }
    void parse_args(int argc, const char *const *argv) {
        for (int i = 1; i < argc; i++) {
            auto *a = find(argv[i]);
            if (!a) throw std::runtime_error("Unknown argument: " + std::string(argv[i]));
            if (++i == argc) throw std::runtime_error(a->names[0] + ": expected 1 argument");
            a->value = argv[i];
            a->used = true;
        }
        for (auto const &a : args_)
            if (a.needed && !a.used) throw std::runtime_error(a.names.back() + ": required.");
    }
    template <class T = std::string>
    T get(const std::string &n) const { return const_cast<ArgumentParser *>(this)->find(n)->value; }
    bool is_used(const std::string &n) const { return const_cast<ArgumentParser *>(this)->find(n)->used; }
    friend std::ostream &operator<<(std::ostream &os, const ArgumentParser &p) { return os << "Usage: " << p.name_ << std::endl; }

private:
    std::string name_;
    std::list<Argument> args_;
    Argument *find(const std::string &n) {
        for (auto &a : args_)
            for (auto const &x : a.names)
                if (x == n) return &a;
        return nullptr;
    }
};
}  // namespace argparse
#endif
