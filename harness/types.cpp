// optional, optional_indirect, indirect (and their views) behave as values; every operation from every state.
#include "vp.hpp"
#include <hpp_proto/field_types.hpp>
#include <hpp_proto/indirect.hpp>
#include <hpp_proto/indirect_view.hpp>
#include <hpp_proto/optional_indirect.hpp>
namespace hp = hpp_proto;
namespace {
int live_objects, live_blocks[3];
struct Obj { // counts its instances, notices use after destruction
  std::uint32_t v = 0;
  std::uint32_t alive = 0x600d;
  Obj() { ++live_objects; }
  Obj(std::uint32_t x) : v(x) { ++live_objects; }
  Obj(const Obj &o) : v(o.v) {
    vp_assert(o.alive == 0x600d, "copy reads a live object");
    ++live_objects;
  }
  Obj(Obj &&o) : v(o.v) {
    vp_assert(o.alive == 0x600d, "move reads a live object");
    o.v = 0;
    ++live_objects;
  }
  Obj &operator=(const Obj &o) {
    vp_assert(alive == 0x600d && o.alive == 0x600d, "assignment reads a live object");
    v = o.v;
    return *this;
  }
  Obj &operator=(Obj &&o) {
    vp_assert(alive == 0x600d && o.alive == 0x600d, "assignment reads a live object");
    std::uint32_t x = o.v;
    o.v = 0;
    v = x;
    return *this;
  }
  ~Obj() {
    vp_assert(alive == 0x600d, "an object is destroyed once");
    alive = 0;
    --live_objects;
  }
  bool operator==(const Obj &o) const { return v == o.v; }
};
// stateful allocator: blocks go back to the arena they came from
template <typename T, bool Propagate> struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<Propagate>;
  using propagate_on_container_move_assignment = std::bool_constant<Propagate>;
  using propagate_on_container_swap = std::bool_constant<Propagate>;
  using is_always_equal = std::false_type;
  int id = 0;
  Al() = default;
  explicit Al(int i) : id(i) {}
  template <typename U> Al(const Al<U, Propagate> &o) : id(o.id) {}
  template <typename U> struct rebind {
    using other = Al<U, Propagate>;
  };
  struct block {
    long id;
    alignas(16) unsigned char mem[sizeof(T)];
  };
  T *allocate(std::size_t) {
    auto *b = new block;
    b->id = id;
    ++live_blocks[id];
    return reinterpret_cast<T *>(b->mem);
  }
  void deallocate(T *p, std::size_t) {
    auto *b = reinterpret_cast<block *>(reinterpret_cast<unsigned char *>(p) - offsetof(block, mem));
    vp_assert(b->id == id, "a block returns to the arena it came from");
    --live_blocks[id];
    delete b;
  }
  bool operator==(const Al &o) const { return id == o.id; }
};
// abstract value of an optional
struct val {
  bool has;
  std::uint32_t v;
  bool operator==(const val &o) const { return has == o.has && (!has || v == o.v); }
};
val any_state() { return {vp_bool("set"), vp_u32("v")}; }
template <typename O> void build(O &o, val a) {
  if (a.has)
    o.emplace(a.v);
  else
    o.reset();
}
template <typename O> bool is(const O &o, val a) {
  if (o.has_value() != a.has || static_cast<bool>(o) != a.has)
    return false;
  return !a.has || (o->v == a.v && (*o).v == a.v && o.value().v == a.v);
}
// one operation of an optional_indirect-like type, from every pair of states; mk(i) makes an empty one in arena i
template <typename O, typename MK> void optional_ops(unsigned op, MK mk) {
  val x = any_state(), y = any_state();
  {
    O a = mk(0), b = mk(1);
    vp_assert(is(a, {false, 0}), "a new one is unset");
    build(a, x), build(b, y);
    vp_assert(is(a, x) && is(b, y), "emplace and reset");
    vp_assert((a == b) == (x == y), "equality compares presence and value");
    switch (op) {
    case 0: { // copy construction
      O c(a);
      vp_assert(is(c, x) && is(a, x), "a copy is equal and leaves the source alone");
      if (c.has_value()) {
        c->v += 1;
        vp_assert(is(a, x), "a copy is independent");
      }
      break;
    }
    case 1: { // move construction
      O c(std::move(a));
      vp_assert(is(c, x), "moving transfers the value");
      build(a, y);
      vp_assert(is(a, y) && is(c, x), "a moved-from object can be reused");
      break;
    }
    case 2: // copy assignment
      a = b;
      vp_assert(is(a, y) && is(b, y), "copy assignment");
      if (a.has_value()) {
        a->v += 1;
        vp_assert(is(b, y), "a copy is independent");
      }
      break;
    case 3: // move assignment
      a = std::move(b);
      vp_assert(is(a, y), "move assignment");
      build(b, x);
      vp_assert(is(a, y) && is(b, x), "a moved-from object can be reused");
      break;
    case 4: { // self assignment
      O &r = a;
      a = r;
      vp_assert(is(a, x), "self copy assignment keeps the value");
      break;
    }
    case 5:
      a.swap(b);
      vp_assert(is(a, y) && is(b, x), "swap");
      break;
    case 6:
      a.reset();
      vp_assert(is(a, {false, 0}) && is(b, y), "reset");
      break;
    case 7: {
      std::uint32_t z = vp_u32("z");
      Obj &r = a.emplace(z);
      vp_assert(is(a, {true, z}) && &r == &*a, "emplace replaces the value");
      break;
    }
    case 8: { // from an object
      Obj o(vp_u32("z"));
      a = o;
      vp_assert(is(a, {true, o.v}), "assignment from a value");
      std::uint32_t z = o.v;
      b = std::move(o);
      vp_assert(is(b, {true, z}), "assignment from an rvalue");
      break;
    }
    case 9: // emplace from its own content
      if (a.has_value()) {
        a.emplace(*a);
        vp_assert(is(a, x), "emplace of the own content");
      }
      break;
    case 10: { // repeated use
      a.reset();
      a.reset();
      a.emplace(1U);
      a = b;
      b = a;
      vp_assert(is(a, y) && is(b, y), "a sequence of assignments");
      break;
    }
    }
  }
  vp_assert(live_objects == 0, "every object is destroyed exactly once");
  vp_assert(live_blocks[0] == 0 && live_blocks[1] == 0 && live_blocks[2] == 0, "every block is freed exactly once");
  vp_cover("end");
}
using OI = hp::optional_indirect<Obj>;
template <bool P> using OIA = hp::optional_indirect<Obj, Al<Obj, P>>;
using II = hp::indirect<Obj>;
template <bool P> using IIA = hp::indirect<Obj, Al<Obj, P>>;
template <typename O, typename MK> void indirect_ops(unsigned op, MK mk) {
  std::uint32_t x = vp_u32("x"), y = vp_u32("y");
  {
    O a = mk(0), b = mk(1);
    vp_assert((*a).v == 0 && a->v == 0, "a new one holds a default object");
    *a = Obj(x), *b = Obj(y);
    vp_assert(a->v == x && (*a).v == x && a.value().v == x && (a == b) == (x == y), "value access and equality");
    switch (op) {
    case 0: {
      O c(a);
      vp_assert(c->v == x && a->v == x, "a copy is equal");
      c->v += 1;
      vp_assert(a->v == x, "and independent");
      break;
    }
    case 1: {
      O c(std::move(a));
      vp_assert(c->v == x, "moving transfers the value");
      a = b;
      vp_assert(a->v == y && b->v == y && c->v == x, "a moved-from object can be assigned");
      a = Obj(x);
      O d(std::move(a));
      a = Obj(y);
      vp_assert(a->v == y && d->v == x, "a moved-from object can be assigned from a value");
      break;
    }
    case 2:
      a = b;
      vp_assert(a->v == y && b->v == y, "copy assignment");
      a->v += 1;
      vp_assert(b->v == y, "a copy is independent");
      break;
    case 3: {
      a = std::move(b);
      vp_assert(a->v == y, "move assignment");
      b = a;
      vp_assert(b->v == y && a->v == y, "a moved-from object can be assigned");
      break;
    }
    case 4: {
      O &r = a;
      a = r;
      vp_assert(a->v == x, "self copy assignment");
      a = std::move(r);
      vp_assert(a->v == x, "self move assignment");
      break;
    }
    case 5:
      a.swap(b);
      vp_assert(a->v == y && b->v == x, "swap");
      break;
    case 6: {
      Obj o(y);
      a = o;
      vp_assert(a->v == y && o.v == y, "assignment from a value");
      O e(o);
      vp_assert(e->v == y && o.v == y, "construction from a value");
      O f(std::move(o));
      vp_assert(f->v == y, "construction from an rvalue");
      break;
    }
    }
  }
  vp_assert(live_objects == 0, "every object is destroyed exactly once");
  vp_assert(live_blocks[0] == 0 && live_blocks[1] == 0 && live_blocks[2] == 0, "every block is freed exactly once");
  vp_cover("end");
}
} // namespace
//@ props=P22 cases=11
VP_HARNESS(h_oi_ops) {
  optional_ops<OI>(vp_case(11), [](int) { return OI{}; });
}
//@ props=P22 cases=22
// allocator that stays with its object; same or different arenas
VP_HARNESS(h_oi_alloc_stay) {
  unsigned c = vp_case(22);
  optional_ops<OIA<false>>(c / 2, [&](int i) { return OIA<false>{Al<Obj, false>(c & 1 ? i : 0)}; });
}
//@ props=P22 cases=22
// allocator that moves with the value
VP_HARNESS(h_oi_alloc_move) {
  unsigned c = vp_case(22);
  optional_ops<OIA<true>>(c / 2, [&](int i) { return OIA<true>{Al<Obj, true>(c & 1 ? i : 0)}; });
}
//@ props=P22 cases=7
VP_HARNESS(h_ind_ops) {
  indirect_ops<II>(vp_case(7), [](int) { return II{}; });
}
//@ props=P22 cases=14
VP_HARNESS(h_ind_alloc_stay) {
  unsigned c = vp_case(14);
  indirect_ops<IIA<false>>(c / 2, [&](int i) { return IIA<false>{Al<Obj, false>(c & 1 ? i : 0)}; });
}
//@ props=P22 cases=14
VP_HARNESS(h_ind_alloc_move) {
  unsigned c = vp_case(14);
  indirect_ops<IIA<true>>(c / 2, [&](int i) { return IIA<true>{Al<Obj, true>(c & 1 ? i : 0)}; });
}
// ---- chains: a node owned by its own predecessor
namespace {
template <template <typename> class P> struct Chain {
  Obj o;
  P<Chain> next;
};
template <typename T> using OIT = hp::optional_indirect<T>;
template <typename T> using OIS = hp::optional_indirect<T, Al<T, false>>;
} // namespace
//@ props=P22 cases=4
// popping the head of a chain: the source of the assignment is owned by the target
VP_HARNESS(h_oi_chain) {
  unsigned c = vp_case(4);
  std::uint32_t x = vp_u32("x"), y = vp_u32("y"), z = vp_u32("z");
  {
    Chain<OIT> h;
    h.next.emplace().o.v = x;
    h.next->next.emplace().o.v = y;
    if (c & 1)
      h.next->next->next.emplace().o.v = z;
    if (c & 2)
      h.next = h.next->next;
    else
      h.next = std::move(h.next->next);
    vp_assert(h.next.has_value() && h.next->o.v == y, "the second node becomes the first");
    vp_assert(h.next->next.has_value() == ((c & 1) != 0) && (!(c & 1) || h.next->next->o.v == z), "with its successors");
    h.next = std::move(h.next->next);
    vp_assert(h.next.has_value() == ((c & 1) != 0), "down to the end of the chain");
  }
  vp_assert(live_objects == 0, "every object is destroyed exactly once");
  vp_cover("end");
}
//@ props=P22 cases=2
VP_HARNESS(h_oi_chain_alloc) {
  unsigned c = vp_case(2);
  std::uint32_t x = vp_u32("x"), y = vp_u32("y");
  {
    Chain<OIS> h;
    h.next.emplace().o.v = x;
    h.next->next.emplace().o.v = y;
    if (c)
      h.next = h.next->next;
    else
      h.next = std::move(h.next->next);
    vp_assert(h.next.has_value() && h.next->o.v == y && !h.next->next.has_value(), "the second node becomes the first");
  }
  vp_assert(live_objects == 0 && live_blocks[0] == 0, "every object is destroyed exactly once");
  vp_cover("end");
}
namespace {
struct Link {
  Obj o;
  std::optional<hp::indirect<Link>> next;
};
} // namespace
//@ props=P22
VP_HARNESS(h_ind_chain) {
  std::uint32_t x = vp_u32("x"), y = vp_u32("y");
  {
    hp::indirect<Link> h;
    h->o.v = x;
    h->next.emplace();
    (*h->next)->o.v = y;
    h = std::move(*h->next);
    vp_assert(h->o.v == y && !h->next.has_value(), "the second node becomes the first");
  }
  vp_assert(live_objects == 0, "every object is destroyed exactly once");
  vp_cover("end");
}
//@ props=P22 cases=4
// a throwing copy leaves the target as it was
VP_HARNESS(h_oi_throw) {
  struct T {
    std::uint32_t v;
    bool bomb = false;
    T(std::uint32_t x) : v(x) { ++live_objects; }
    T(const T &o) : v(o.v) {
      if (o.bomb)
        throw 1;
      ++live_objects;
    }
    ~T() { --live_objects; }
  };
  unsigned c = vp_case(4);
  std::uint32_t x = vp_u32("x"), y = vp_u32("y");
  bool thrown = false;
  {
    hp::optional_indirect<T, Al<T, false>> a, b;
    if (c & 1)
      a.emplace(x);
    b.emplace(y);
    b->bomb = true;
    try {
      if (c & 2)
        a = b;
      else
        a.emplace(*b);
    } catch (int) {
      thrown = true;
    }
    vp_assert(thrown && a.has_value() == ((c & 1) != 0) && (!(c & 1) || a->v == x), "the target is unchanged");
    vp_assert(b.has_value() && b->v == y, "and so is the source");
  }
  vp_assert(live_objects == 0 && live_blocks[0] == 0, "nothing leaks");
  vp_cover("end");
}
// ---- hpp_proto::optional
namespace {
template <typename T, auto D, typename Any> void plain_ops(unsigned op, Any any, T dflt) {
  using O = hp::optional<T, D>;
  bool hx = vp_bool("hx"), hy = vp_bool("hy");
  T x = any(), y = any();
  auto mk = [](bool h, const T &v) {
    O o;
    if (h)
      o = v;
    return o;
  };
  auto is = [&](const O &o, bool h, const T &v) { return o.has_value() == h && *o == (h ? v : dflt) && o.value() == (h ? v : dflt); };
  O a = mk(hx, x), b = mk(hy, y);
  vp_assert(is(O{}, false, x) && is(a, hx, x), "unset reads as the default");
  vp_assert((a == b) == (hx == hy && (!hx || x == y)), "equality compares presence and value");
  switch (op) {
  case 0: {
    O c(a);
    vp_assert(is(c, hx, x) && is(a, hx, x), "copy");
    c = y;
    vp_assert(is(a, hx, x) && is(c, true, y), "independent");
    break;
  }
  case 1: {
    O c(std::move(a));
    vp_assert(is(c, hx, x), "move");
    a = b;
    vp_assert(is(a, hy, y), "reuse");
    break;
  }
  case 2:
    a = b;
    vp_assert(is(a, hy, y) && is(b, hy, y), "copy assignment");
    break;
  case 3:
    a = std::move(b);
    vp_assert(is(a, hy, y), "move assignment");
    break;
  case 4: {
    O &r = a;
    a = r;
    vp_assert(is(a, hx, x), "self assignment");
    break;
  }
  case 5:
    a.swap(b);
    vp_assert(is(a, hy, y) && is(b, hx, x), "swap");
    break;
  case 6:
    a.reset();
    vp_assert(is(a, false, x) && is(b, hy, y), "reset");
    break;
  case 7:
    a.emplace();
    vp_assert(a.has_value() && is(b, hy, y), "emplace sets");
    a.emplace(y);
    vp_assert(is(a, true, y), "emplace with a value");
    break;
  case 8:
    if constexpr (!std::is_same_v<T, bool>) {
      std::optional<T> s;
      if (hy)
        s = y;
      O c(s);
      vp_assert(is(c, hy, y), "from std::optional");
      a = s;
      vp_assert(is(a, hy, y), "assigned from std::optional");
      b.reset();
      b = std::move(s);
      vp_assert(is(b, hy, y), "assigned from an rvalue std::optional");
      vp_assert(a.value_or(x) == (hy ? y : x), "value_or");
      a = std::nullopt;
      vp_assert(is(a, false, x), "assigned nullopt");
    }
    break;
  }
  vp_cover("end");
}
} // namespace
//@ props=P22 cases=9
VP_HARNESS(h_opt_u32) {
  plain_ops<std::uint32_t, std::monostate{}>(vp_case(9), [] { return vp_u32("v"); }, 0U);
}
//@ props=P22 cases=9
VP_HARNESS(h_opt_i64_default) {
  plain_ops<std::int64_t, std::int64_t{-7}>(vp_case(9), [] { return static_cast<std::int64_t>(vp_u64("v")); }, std::int64_t{-7});
}
//@ props=P22 cases=9
VP_HARNESS(h_opt_bool) {
  plain_ops<bool, std::monostate{}>(vp_case(9), [] { return vp_bool("v"); }, false);
}
//@ props=P22 cases=9
VP_HARNESS(h_opt_bool_default) {
  plain_ops<bool, true>(vp_case(9), [] { return vp_bool("v"); }, true);
}
//@ props=P22 cases=9 bound="one-character strings"
VP_HARNESS(h_opt_string) {
  plain_ops<std::string, hp::compile_time_string{"ab\0c"}>(
      vp_case(9), [] { return std::string(1, static_cast<char>(vp_u8("v"))); }, std::string("ab\0c", 4));
}
//@ props=P22
// views refer to the object they were given; an unset one reads as a default object
VP_HARNESS(h_views_value) {
  Obj x(vp_u32("x")), y(vp_u32("y"));
  hp::optional_indirect_view<Obj> a, b(&y);
  vp_assert(!a.has_value() && !a && a == nullptr && b.has_value() && b->v == y.v && &*b == &y, "state");
  vp_assert(!(a == b), "equality compares presence");
  a = &x;
  vp_assert(a.has_value() && &a.value() == &x && (a == b) == (x.v == y.v), "equality compares values");
  a.swap(b);
  vp_assert(&*a == &y && &*b == &x, "swap");
  b = a;
  vp_assert(&*b == &y && &*a == &y, "assignment");
  hp::optional_indirect_view<Obj> c(std::move(a));
  vp_assert(&*c == &y, "move");
  c.reset();
  vp_assert(!c.has_value() && b.has_value(), "reset");
  hp::indirect_view<Obj> d, e(&x);
  vp_assert(d->v == 0 && (*d).v == 0 && e->v == x.v, "indirect_view");
  vp_assert((d == e) == (x.v == 0), "indirect_view compares values");
  d.swap(e);
  vp_assert(d->v == x.v && e->v == 0, "swap");
  vp_cover("end");
}
