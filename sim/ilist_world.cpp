// Intrusive lists whose elements and lists come, move and die at arbitrary
// moments, in lock step with plain reference lists (AddressSanitizer watches
// every access to something destroyed).
#include "core.hpp"

#include <algorithm>
#include <list>
#include <memory>
#include <optional>

#include "util/util_intrusive_list.hpp"

namespace lw {

namespace fw = freewebrtc;
using sim::Choices;
using sim::Run;
using sim::strf;

struct Item;
using List = fw::util::IntrusiveList<Item>;

struct Item {
    explicit Item(unsigned id) : id(id), a(*this), b(*this) {}
    Item(Item&& o) : id(o.id), a(*this, std::move(o.a)), b(*this, std::move(o.b)) { o.id = 0xDEAD; }
    unsigned id;
    List::Link a, b;   // an element may be in one list per link
};

struct L {
    int link;                       // 0: a, 1: b
    std::unique_ptr<List> real;
    std::list<unsigned> ref;
};

class World {
public:
    explicit World(Run& r) : r(r), ch(r.ch) {}
    void run();
private:
    Run& r;
    Choices& ch;
    std::map<unsigned, std::unique_ptr<Item>> items;
    std::vector<L> lists;
    unsigned next_id = 1;

    List::Link Item::*member(int k) const { return k ? &Item::b : &Item::a; }
    L *home(unsigned id, int link) {
        for (auto& l : lists) { if (l.link == link && std::find(l.ref.begin(), l.ref.end(), id) != l.ref.end()) { return &l; } }
        return nullptr;
    }
    void unlink(unsigned id, int link) { if (auto *l = home(id, link)) { l->ref.remove(id); } }
    Item *any_item() {
        if (items.empty()) { return nullptr; }
        auto it = items.begin();
        std::advance(it, ch.pick(uint32_t(items.size())));
        return it->second.get();
    }
    L& any_list() { return lists[ch.pick(uint32_t(lists.size()))]; }
    void bad(const char *cls, const std::string& m) { r.violate({"L01"}, cls, m); }
    void check();
    void inspect(L&, bool from_back);
    size_t index(const L& l) const { return size_t(&l - lists.data()); }
};

void World::check() {
    r.eval("L01");
    for (auto& l : lists) {
        const List& c = *l.real;
        if (c.empty() != l.ref.empty()) { bad("emptiness", strf("list %zu is %sempty", index(l), c.empty() ? "" : "not ")); return; }
        auto cmp = [&](const char *what, auto&& got, unsigned want) {
            if (got.is_some() == l.ref.empty()) { bad("end-presence", strf("%s of list %zu %s", what, index(l), got.is_some() ? "exists" : "is missing")); return; }
            if (got.is_none()) { return; }
            const Item& x = got.unwrap().get();
            if (x.id != want || items.at(want).get() != &x) { bad("end-element", strf("%s of list %zu is %u, must be %u", what, index(l), x.id, want)); }
        };
        const unsigned f = l.ref.empty() ? 0 : l.ref.front(), k = l.ref.empty() ? 0 : l.ref.back();
        cmp("front", l.real->front(), f);
        cmp("back", l.real->back(), k);
        cmp("const front", c.front(), f);
        cmp("const back", c.back(), k);
    }
    for (auto& [id, it] : items) {
        for (int k = 0; k < 2; ++k) {
            const bool in = (it.get()->*member(k)).in_list();
            if (in != (home(id, k) != nullptr)) { bad("membership", strf("element %u says it is %sin a list", id, in ? "" : "not ")); return; }
        }
        if (&it->a.get() != it.get() || &it->b.get() != it.get()) { bad("owner", strf("link of element %u belongs to another element", id)); return; }
    }
}

// Reads the whole list without changing it: every element goes round once
void World::inspect(L& l, bool from_back) {
    std::vector<unsigned> seen;
    for (size_t i = 0; i < l.ref.size() && !l.real->empty(); ++i) {
        auto e = from_back ? l.real->back() : l.real->front();
        if (e.is_none()) { break; }
        Item& x = e.unwrap().get();
        seen.push_back(x.id);
        if (from_back) {
            if (ch.chance(1, 2)) { l.real->pop_back(); }
            l.real->push_front(x);
        } else {
            if (ch.chance(1, 2)) { l.real->pop_front(); }
            l.real->push_back(x);
        }
    }
    std::vector<unsigned> want(l.ref.begin(), l.ref.end());
    if (from_back) { std::reverse(want.begin(), want.end()); }
    if (seen != want) {
        std::string a, b;
        for (auto x : seen) { a += strf("%u ", x); }
        for (auto x : want) { b += strf("%u ", x); }
        bad("order", strf("list %zu read from the %s is ", index(l), from_back ? "back" : "front") + a + "must be " + b);
    }
    r.probe(from_back ? "read-backward" : "read-forward");
}

void World::run() {
    const uint32_t nl = ch.range(1, 4), ni = ch.range(1, 8);
    const bool both = ch.chance(1, 3);
    for (uint32_t i = 0; i < nl; ++i) {
        const int k = both ? int(ch.pick(2)) : 0;
        L l;
        l.link = k;
        l.real = std::make_unique<List>(member(k));
        lists.push_back(std::move(l));
    }
    for (uint32_t i = 0; i < ni; ++i) { items[next_id] = std::make_unique<Item>(next_id); next_id++; }
    const uint32_t steps = ch.range(1, 60);
    for (uint32_t s = 0; s < steps; ++s) {
        r.now += 1;
        const size_t op = ch.weighted({12, 12, 5, 5, 8, 3, 4, 4, 6, 5, 3, 5, 3});
        r.step(uint32_t(op));
        switch (op) {
        case 0: case 1: {
            Item *x = any_item();
            if (!x) { break; }
            L& l = any_list();
            r.probe(home(x->id, l.link) ? (home(x->id, l.link) == &l ? "push-linked-same-list" : "push-linked-other-list") : "push-new");
            unlink(x->id, l.link);
            if (op == 0) { l.ref.push_back(x->id); l.real->push_back(*x); } else { l.ref.push_front(x->id); l.real->push_front(*x); }
            r.log("push_%s %u to list %zu", op ? "front" : "back", x->id, index(l));
            break;
        }
        case 2: { L& l = any_list(); if (l.ref.empty()) { break; } r.log("pop_front list %zu", index(l)); l.ref.pop_front(); l.real->pop_front(); break; }
        case 3: { L& l = any_list(); if (l.ref.empty()) { break; } r.log("pop_back list %zu", index(l)); l.ref.pop_back(); l.real->pop_back(); break; }
        case 4: {
            Item *x = any_item();
            if (!x) { break; }
            const int k = int(ch.pick(2));
            r.probe(home(x->id, k) ? "remove-linked" : "remove-unlinked");
            r.log("remove %u link %d", x->id, k);
            unlink(x->id, k);
            (x->*member(k)).remove();
            break;
        }
        case 5: { L& l = any_list(); r.log("clear list %zu of %zu", index(l), l.ref.size()); l.ref.clear(); l.real->clear(); break; }
        case 6: {  // move construction
            L& l = any_list();
            r.log("move-construct list %zu of %zu", index(l), l.ref.size());
            r.probe(l.ref.empty() ? "list-move-empty" : "list-move");
            auto n = std::make_unique<List>(std::move(*l.real));
            if (!l.real->empty()) { bad("moved-from-list", "a list that was moved from is not empty"); }
            if (ch.chance(1, 2)) {  // the old one is used again before it dies
                if (Item *x = any_item()) {
                    unlink(x->id, l.link);
                    l.real->push_back(*x);
                    if (ch.chance(1, 2)) { l.real->pop_front(); }
                    r.probe("moved-from-list-used");
                }
            }
            l.real = std::move(n);
            r.fault("list-destroyed");
            break;
        }
        case 7: {  // move assignment
            const size_t i = ch.pick(uint32_t(lists.size())), j = ch.pick(uint32_t(lists.size()));
            L &a = lists[i], &b = lists[j];
            if (a.link != b.link) { break; }
            r.log("list %zu (%zu) = move of list %zu (%zu)", i, a.ref.size(), j, b.ref.size());
            r.probe(i == j ? "list-self-assign" : b.ref.empty() ? "list-assign-empty" : a.ref.empty() ? "list-assign-to-empty" : "list-assign");
            List& src = *b.real;
            *a.real = std::move(src);
            if (i != j) { a.ref = std::move(b.ref); b.ref.clear(); }
            break;
        }
        case 8: {  // an element moves
            Item *x = any_item();
            if (!x) { break; }
            const unsigned id = x->id;
            r.log("move element %u", id);
            r.probe(home(id, 0) || home(id, 1) ? "element-move-linked" : "element-move-unlinked");
            auto n = std::make_unique<Item>(std::move(*x));
            if (x->a.in_list() || x->b.in_list()) { bad("moved-from-element", "an element that was moved from is still in a list"); }
            items[id] = std::move(n);
            r.fault("element-destroyed");
            break;
        }
        case 9: {  // an element dies
            Item *x = any_item();
            if (!x) { break; }
            const unsigned id = x->id;
            r.log("destroy element %u", id);
            r.probe(home(id, 0) || home(id, 1) ? "destroy-linked" : "destroy-unlinked");
            unlink(id, 0);
            unlink(id, 1);
            items.erase(id);
            r.fault("element-destroyed");
            break;
        }
        case 10: {  // a list dies
            L& l = any_list();
            r.log("destroy list %zu of %zu", index(l), l.ref.size());
            r.fault("list-destroyed");
            l.ref.clear();
            l.real.reset();
            l.real = std::make_unique<List>(member(l.link));
            break;
        }
        case 11: inspect(any_list(), ch.chance(1, 2)); break;
        default: if (items.size() < 10) { items[next_id] = std::make_unique<Item>(next_id); next_id++; } break;
        }
        check();
        uint64_t h = 0;
        for (auto& l : lists) { h = sim::mix(h, l.ref.size()); }
        r.state(sim::mix(h, items.size()));
    }
    for (auto& l : lists) { inspect(l, ch.chance(1, 2)); }
    check();
    // the end, in any order
    if (ch.chance(1, 2)) { items.clear(); lists.clear(); } else { lists.clear(); for (auto& [id, x] : items) { if (x->a.in_list() || x->b.in_list()) { bad("list-destruction", strf("element %u is in a list although all lists are gone", id)); } } items.clear(); }
    r.log("end");
}

}

int main(int argc, char **argv) {
    return sim::sim_main(argc, argv, [](sim::Run& r) { lw::World(r).run(); });
}
