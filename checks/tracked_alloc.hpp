// Allocators with a ledger: every block remembers its owner id and size; allocation may be refused by the explorer.
#pragma once
#include "mc.hpp"
#include <cstdint>
#include <map>
#include <new>
#include <vector>

struct Ledger {
  struct Block { int id; size_t n; };
  mc::Ctx* c = nullptr;
  std::map<void*, Block> live;
  int allocs = 0, last_alloc_id = -1, refused = 0;
  bool may_fail = false;
  static Ledger*& cur() { static Ledger* l = nullptr; return l; }
  explicit Ledger(mc::Ctx& ctx) : c(&ctx) { cur() = this; }
  ~Ledger() { cur() = nullptr; }
  void* allocate(int id, size_t bytes)
  {
    if (bytes > (1u << 20)) { ++refused; c->note("huge allocation of %zu refused", bytes); throw std::bad_alloc(); }
    if (may_fail && c->choose_dev(2, "allocation fails")) { ++refused; c->note("alloc#%d(%zu) fails", id, bytes); throw std::bad_alloc(); }
    ++allocs; last_alloc_id = id;
    void* p = ::operator new(bytes ? bytes : 1);
    memset(p, 0xCD, bytes);
    live[p] = {id, bytes};
    c->note("alloc#%d(%zu)", id, bytes);
    return p;
  }
  void deallocate(int id, void* p, size_t bytes)
  {
    auto it = live.find(p);
    if (it == live.end()) c->fail("memory block returned that is not (or no longer) allocated%s", p ? "" : " (null pointer)");
    if (it->second.n != bytes) c->fail("memory block of %zu bytes returned as %zu bytes", it->second.n, bytes);
    if (it->second.id != id) c->fail("memory block allocated by allocator %d returned to unequal allocator %d", it->second.id, id);
    live.erase(it);
    c->note("dealloc#%d(%zu)", id, bytes);
    ::operator delete(p);
  }
};

// POCCA/POCMA: propagation traits; SEL: select_on_container_copy_construction returns allocator id+100 if set.
template <typename T, bool POCCA = true, bool POCMA = true, bool SEL = false, bool ALWAYS_EQ = false>
struct TrackAlloc {
  typedef T value_type;
  typedef std::integral_constant<bool, POCCA> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, POCMA> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, ALWAYS_EQ> is_always_equal;
  template <typename U> struct rebind { typedef TrackAlloc<U, POCCA, POCMA, SEL, ALWAYS_EQ> other; };
  int id;
  TrackAlloc(int i = 0) noexcept : id(i) {}
  template <typename U> TrackAlloc(const TrackAlloc<U, POCCA, POCMA, SEL, ALWAYS_EQ>& o) noexcept : id(o.id) {}
  T* allocate(size_t n) { return (T*)Ledger::cur()->allocate(id, n * sizeof(T)); }
  void deallocate(T* p, size_t n) noexcept { Ledger::cur()->deallocate(id, p, n * sizeof(T)); }
  TrackAlloc select_on_container_copy_construction() const { return SEL ? TrackAlloc(id + 100) : *this; }
  template <typename U> bool operator==(const TrackAlloc<U, POCCA, POCMA, SEL, ALWAYS_EQ>& o) const noexcept { return id == o.id; }
  template <typename U> bool operator!=(const TrackAlloc<U, POCCA, POCMA, SEL, ALWAYS_EQ>& o) const noexcept { return id != o.id; }
};
