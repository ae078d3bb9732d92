// Mini-TBB: the environment model that stands in for Threading Building Blocks in the harnesses.
// The installed oneTBB cannot compile this code base (it needs the classic API), and a real work
// stealing pool could not be explored anyway: here the explorer owns every scheduling decision.
//
//  * parallel_for / parallel_do / parallel_sort call the code under test's own ranges and bodies; how
//    a range is split, in which order leaves run and on which logical worker is decided by
//    mtbb::policy() (a choice sequence), or - under the fiber scheduler - each leaf is a logical thread.
//  * enumerable_thread_specific is keyed by the logical worker.
//  * the concurrent containers and mutexes are sequentially specified and announce a scheduling point
//    (mtbb::sync()) before each operation that is atomic in TBB.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#ifndef TBB_VERSION_MAJOR
#define TBB_VERSION_MAJOR 2018
#define TBB_INTERFACE_VERSION 10000
#endif

namespace mtbb {

// Everything the explorer may decide. The defaults describe a sequential, in-order execution.
struct Policy {
    virtual ~Policy() = default;
    // how many leaves a range may be split into at most
    virtual std::size_t maxLeaves() { return 4; }
    // which of the n still pending leaves runs next (0 = oldest)
    virtual std::size_t pick(std::size_t n) { (void) n; return 0; }
    // the logical worker that runs the next leaf
    virtual int worker() { return ctr++ % 2; }
    // true: run leaves as logical threads through runThreads
    virtual bool threaded() { return false; }
    virtual void runThreads(std::vector<std::function<void()>> &) {}
    // scheduling point before an atomic container/mutex operation on addr
    virtual void sync(const void *addr, bool write) { (void) addr; (void) write; }
    // spinning on addr
    virtual void spin(const void *addr) { (void) addr; }
    // an operation on addr that is atomic in TBB begins / ends
    virtual void begin(const void *addr, bool write) { sync(addr, write); }
    virtual void end(const void *addr) { (void) addr; }
    // mutexes: true (or not -1) if the policy handles it
    virtual bool lock(const void *) { return false; }
    virtual bool unlock(const void *) { return false; }
    virtual int tryLock(const void *) { return -1; }
    virtual int self() { return cur; }
    virtual void become(int w) { cur = w; }

    int ctr = 0;
    int cur = 0;
};

inline Policy *&policyPtr() {
    static Policy def;
    static Policy *p = &def;
    return p;
}

inline Policy &policy() { return *policyPtr(); }

struct ScopedPolicy {
    Policy *old;

    explicit ScopedPolicy(Policy *p) : old(policyPtr()) { policyPtr() = p; }

    ~ScopedPolicy() { policyPtr() = old; }
};

struct Op {
    const void *a;

    explicit Op(const void *a_, bool w = true) : a(a_) { policy().begin(a, w); }

    Op(const Op &) = delete;

    ~Op() { policy().end(a); }
};

// run a list of independent leaves under the policy
inline void runLeaves(std::vector<std::function<void()>> &leaves) {
    Policy &p = policy();
    if (leaves.empty())
        return;
    if (p.threaded()) {
        p.runThreads(leaves);
        return;
    }
    std::vector<std::size_t> pending(leaves.size());
    for (std::size_t i = 0; i < pending.size(); ++i)
        pending[i] = i;
    int outer = p.self();
    std::exception_ptr ex;
    while (!pending.empty()) {
        std::size_t k = pending.size() > 1 ? p.pick(pending.size()) : 0;
        std::size_t leaf = pending[k];
        pending.erase(pending.begin() + k);
        p.become(p.worker());
        try {
            leaves[leaf]();
        } catch (...) {
            if (!ex)
                ex = std::current_exception();
            break;
        }
    }
    p.become(outer);
    if (ex)
        std::rethrow_exception(ex);
}

} // namespace mtbb

namespace tbb {

class split {
};

template<typename T>
class blocked_range {
public:
    typedef T const_iterator;
    typedef std::size_t size_type;

    blocked_range() : e(), b(), g(1) {}

    blocked_range(T b_, T e_, size_type g_ = 1) : e(e_), b(b_), g(g_) {}

    blocked_range(blocked_range &o, split) : e(o.e), b(o.b + (o.e - o.b) / 2u), g(o.g) { o.e = b; }

    const_iterator begin() const { return b; }

    const_iterator end() const { return e; }

    size_type size() const { return size_type(e - b); }

    size_type grainsize() const { return g; }

    bool empty() const { return !(b < e); }

    bool is_divisible() const { return g < size(); }

private:
    T e, b;
    size_type g;
};

class auto_partitioner {
};
class simple_partitioner {
};
class affinity_partitioner {
};
class static_partitioner {
};
class task_group_context {
};

namespace internal {
class no_copy {
    no_copy(const no_copy &) = delete;
    no_copy &operator=(const no_copy &) = delete;

public:
    no_copy() {}
};

class no_assign {
    void operator=(const no_assign &) = delete;
};

template<typename T>
inline T first(const T &t) { return t; }

// breadth-first splitting until the policy's leaf budget is used up; leaves stay in range order
template<typename Range>
void splitRange(const Range &r, std::list<Range> &out) {
    std::size_t budget = std::max<std::size_t>(1, mtbb::policy().maxLeaves());
    out.clear();
    if (r.empty())
        return;
    out.push_back(r);
    bool any = true;
    while (any && out.size() < budget) {
        any = false;
        for (auto it = out.begin(); it != out.end() && out.size() < budget; ++it) {
            if (it->is_divisible()) {
                Range right(*it, split());
                auto nxt = std::next(it);
                out.insert(nxt, right);
                ++it;
                any = true;
            }
        }
    }
}
} // namespace internal

template<typename Range, typename Body>
auto parallel_for(const Range &r, const Body &body) -> decltype(r.empty(), void()) {
    std::list<Range> leaves;
    internal::splitRange(r, leaves);
    std::vector<std::function<void()>> fs;
    for (auto &l : leaves) {
        Range *lp = &l;
        fs.emplace_back([lp, &body]() {
            if (!lp->empty())
                body(*lp);
        });
    }
    mtbb::runLeaves(fs);
}

template<typename Range, typename Body>
auto parallel_for(const Range &r, const Body &body, const simple_partitioner &) -> decltype(r.empty(), void()) { parallel_for(r, body); }

template<typename Range, typename Body>
auto parallel_for(const Range &r, const Body &body, const auto_partitioner &) -> decltype(r.empty(), void()) { parallel_for(r, body); }

template<typename Range, typename Body>
auto parallel_for(const Range &r, const Body &body, affinity_partitioner &) -> decltype(r.empty(), void()) { parallel_for(r, body); }

template<typename Index, typename F>
typename std::enable_if<std::is_integral<Index>::value>::type
parallel_for(Index a, Index b, const F &f) {
    if (!(a < b))
        return;
    parallel_for(blocked_range<Index>(a, b), [&](const blocked_range<Index> &r) {
        for (Index i = r.begin(); i < r.end(); ++i)
            f(i);
    });
}

template<typename Index, typename F>
typename std::enable_if<std::is_integral<Index>::value>::type
parallel_for(Index a, Index b, Index step, const F &f) {
    if (!(a < b))
        return;
    Index n = (b - a - Index(1)) / step + Index(1);
    parallel_for(blocked_range<Index>(0, n), [&](const blocked_range<Index> &r) {
        for (Index i = r.begin(); i < r.end(); ++i)
            f(a + i * step);
    });
}

template<typename Range, typename Body>
void parallel_reduce(const Range &r, Body &body) { body(r); }

// ------------------------------------------------------------------ parallel_do
template<typename Item>
class parallel_do_feeder {
public:
    virtual ~parallel_do_feeder() {}

    void add(const Item &i) { internal_add(i); }

private:
    virtual void internal_add(const Item &) = 0;
};

template<typename Item>
using feeder = parallel_do_feeder<Item>;

namespace internal {
template<typename Item>
struct do_feeder : parallel_do_feeder<Item> {
    std::deque<Item> q;

    void internal_add(const Item &i) override {
        mtbb::Op op_(this);
        q.push_back(i);
    }
};

template<typename Body, typename Item>
auto callDo(const Body &b, Item &i, parallel_do_feeder<typename std::decay<Item>::type> &f, int) -> decltype(b(i, f), void()) { b(i, f); }

template<typename Body, typename Item>
auto callDo(const Body &b, Item &i, parallel_do_feeder<typename std::decay<Item>::type> &, long) -> decltype(b(i), void()) { b(i); }

template<typename It, typename Body>
void parallelDoIter(It b, It e, const Body &body) {
    typedef typename std::decay<decltype(*b)>::type Item;
    do_feeder<Item> fd;
    for (; b != e; ++b)
        fd.q.push_back(*b);
    // items are independent tasks: the policy picks which pending item is processed next
    mtbb::Policy &p = mtbb::policy();
    if (p.threaded()) {
        std::size_t k = std::max<std::size_t>(1, p.maxLeaves());
        while (!fd.q.empty()) {
            std::vector<std::function<void()>> fs;
            for (std::size_t i = 0; i < k; ++i)
                fs.emplace_back([&]() {
                    while (true) {
                        std::deque<Item> one;
                        {
                            mtbb::Op op_(&fd);
                            if (fd.q.empty())
                                return;
                            one.push_back(fd.q.front());
                            fd.q.pop_front();
                        }
                        callDo(body, one.front(), fd, 0);
                    }
                });
            p.runThreads(fs);
        }
        return;
    }
    int outer = p.self();
    while (!fd.q.empty()) {
        std::size_t n = std::min<std::size_t>(fd.q.size(), 3); // deviation window
        std::size_t k = n > 1 ? p.pick(n) : 0;
        Item it = fd.q[k];
        fd.q.erase(fd.q.begin() + k);
        p.become(p.worker());
        try {
            callDo(body, it, fd, 0);
        } catch (...) {
            p.become(outer);
            throw;
        }
    }
    p.become(outer);
}

template<typename R, typename Body>
auto parallelDo(const R &r, const Body &body, int) -> decltype(r.is_divisible(), void()) {
    parallelDoIter(r.begin(), r.end(), body);
}

template<typename R, typename Body>
void parallelDo(const R &r, const Body &body, long) {
    parallelDoIter(r.begin(), r.end(), body);
}
} // namespace internal

template<typename R, typename Body>
void parallel_do(const R &r, const Body &body) { internal::parallelDo(r, body, 0); }

template<typename It, typename Body>
void parallel_do(It b, It e, const Body &body) { internal::parallelDoIter(b, e, body); }

template<typename It>
void parallel_sort(It b, It e) { std::sort(b, e); }

template<typename It, typename C>
void parallel_sort(It b, It e, const C &c) { std::sort(b, e, c); }

template<typename Container>
void parallel_sort(Container &c) { std::sort(c.begin(), c.end()); }

template<typename F0, typename... F>
void parallel_invoke(const F0 &f0, const F &... f) {
    std::vector<std::function<void()>> fs{std::function<void()>(f0), std::function<void()>(f)...};
    mtbb::runLeaves(fs);
}

class task_group {
    std::vector<std::function<void()>> fs;

public:
    template<typename F>
    void run(const F &f) { fs.emplace_back(f); }

    void wait() {
        auto l = std::move(fs);
        fs.clear();
        mtbb::runLeaves(l);
    }
};

// ------------------------------------------------------------------ allocators
template<typename T>
using cache_aligned_allocator = std::allocator<T>;
template<typename T>
using scalable_allocator = std::allocator<T>;
template<typename T>
using tbb_allocator = std::allocator<T>;

enum ets_key_usage_type {
    ets_key_per_instance, ets_no_key, ets_suspend_aware
};

// ------------------------------------------------------------------ enumerable_thread_specific
template<typename T, typename A = cache_aligned_allocator<T>, ets_key_usage_type K = ets_no_key>
class enumerable_thread_specific {
    struct Slot {
        int w;
        std::unique_ptr<T> v;
    };
    typedef std::vector<Slot> Slots;
    std::shared_ptr<Slots> slots = std::make_shared<Slots>();
    std::function<T *()> make;

    template<typename F, typename = void>
    struct isInit : std::false_type {
    };
    template<typename F>
    struct isInit<F, typename std::enable_if<std::is_convertible<decltype(std::declval<F &>()()), T>::value>::type>
            : std::true_type {
    };

public:
    typedef T value_type;
    typedef T &reference;
    typedef const T &const_reference;

    template<bool C>
    struct iter {
        typedef std::forward_iterator_tag iterator_category;
        typedef T value_type;
        typedef std::ptrdiff_t difference_type;
        typedef typename std::conditional<C, const T *, T *>::type pointer;
        typedef typename std::conditional<C, const T &, T &>::type reference;
        Slots *s;
        std::size_t i;

        iter(Slots *s_ = nullptr, std::size_t i_ = 0) : s(s_), i(i_) {}

        template<bool C2>
        iter(const iter<C2> &o) : s(o.s), i(o.i) {}

        iter &operator++() {
            ++i;
            return *this;
        }

        iter operator++(int) {
            iter r(*this);
            ++i;
            return r;
        }

        reference operator*() const { return *(*s)[i].v; }

        pointer operator->() const { return (*s)[i].v.get(); }

        bool operator==(const iter &o) const { return i == o.i; }

        bool operator!=(const iter &o) const { return i != o.i; }
    };

    typedef iter<false> iterator;
    typedef iter<true> const_iterator;

    enumerable_thread_specific() : make([]() { return makeDefault(0); }) {}

    enumerable_thread_specific(enumerable_thread_specific &&o) = default;

    enumerable_thread_specific(const enumerable_thread_specific &o) : make(o.make) {
        for (auto &s : *o.slots)
            slots->push_back(Slot{s.w, std::unique_ptr<T>(new T(*s.v))});
    }

    enumerable_thread_specific &operator=(enumerable_thread_specific &&o) = default;

    enumerable_thread_specific &operator=(const enumerable_thread_specific &o) {
        enumerable_thread_specific t(o);
        *this = std::move(t);
        return *this;
    }

    template<typename P, typename... R, typename = typename std::enable_if<
            !std::is_same<typename std::decay<P>::type, enumerable_thread_specific>::value>::type>
    enumerable_thread_specific(P &&p, R &&... r) { init(std::forward<P>(p), std::forward<R>(r)...); }

    T &local() {
        bool e;
        return local(e);
    }

    T &local(bool &exists) {
        int w = mtbb::policy().self();
        {
            mtbb::Op op_(this);
            for (auto &s : *slots)
                if (s.w == w) {
                    exists = true;
                    return *s.v;
                }
        }
        exists = false;
        std::unique_ptr<T> n(make()); // may re-enter
        T &r = *n;
        mtbb::Op op_(this);
        slots->push_back(Slot{w, std::move(n)});
        return r;
    }

    iterator begin() { return iterator(slots.get(), 0); }

    iterator end() { return iterator(slots.get(), slots->size()); }

    const_iterator begin() const { return const_iterator(slots.get(), 0); }

    const_iterator end() const { return const_iterator(slots.get(), slots->size()); }

    std::size_t size() const { return slots->size(); }

    bool empty() const { return slots->empty(); }

    void clear() { slots->clear(); }

    template<typename F>
    T combine(F f) {
        if (slots->empty())
            return std::move(*std::unique_ptr<T>(make()));
        T r(*(*slots)[0].v);
        for (std::size_t i = 1; i < slots->size(); ++i)
            r = f(r, *(*slots)[i].v);
        return r;
    }

    template<typename F>
    void combine_each(F f) {
        for (auto &s : *slots)
            f(*s.v);
    }

private:
    template<typename U = T>
    static auto makeDefault(int) -> decltype(new U()) { return new U(); }

    static T *makeDefault(long) { return nullptr; }

    template<typename P>
    typename std::enable_if<isInit<typename std::decay<P>::type>::value>::type init(P &&p) {
        auto f = std::make_shared<typename std::decay<P>::type>(std::forward<P>(p));
        make = [f]() { return new T((*f)()); };
    }

    template<typename P, typename... R>
    typename std::enable_if<(sizeof...(R) > 0) || !isInit<typename std::decay<P>::type>::value>::type
    init(P &&p, R &&... r) {
        auto t = std::make_shared<std::tuple<typename std::decay<P>::type, typename std::decay<R>::type...>>(
                std::forward<P>(p), std::forward<R>(r)...);
        make = [t]() { return std::apply([](auto &... a) { return new T(a...); }, *t); };
    }
};

template<typename T>
class combinable : public enumerable_thread_specific<T> {
public:
    using enumerable_thread_specific<T>::enumerable_thread_specific;
};

// ------------------------------------------------------------------ containers
namespace internal {
template<typename It>
class it_range {
    It b, e;

public:
    typedef It iterator;
    typedef std::size_t size_type;

    it_range(It b_, It e_) : b(b_), e(e_) {}

    it_range(it_range &o, split) : b(o.b), e(o.e) {
        It m = o.b;
        std::advance(m, std::distance(o.b, o.e) / 2);
        o.e = m;
        b = m;
    }

    It begin() const { return b; }

    It end() const { return e; }

    bool empty() const { return b == e; }

    size_type size() const { return std::distance(b, e); }

    size_type grainsize() const { return 1; }

    bool is_divisible() const { return std::distance(b, e) > 1; }
};
} // namespace internal

template<typename T, typename A = std::allocator<T>>
class concurrent_vector {
    std::deque<T> d;

public:
    typedef T value_type;
    typedef T &reference;
    typedef const T &const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef typename std::deque<T>::iterator iterator;
    typedef typename std::deque<T>::const_iterator const_iterator;
    typedef internal::it_range<iterator> range_type;
    typedef internal::it_range<const_iterator> const_range_type;

    concurrent_vector() {}

    explicit concurrent_vector(size_type n) : d(n) {}

    concurrent_vector(size_type n, const T &v) : d(n, v) {}

    concurrent_vector(const concurrent_vector &) = default;

    concurrent_vector(concurrent_vector &&) = default;

    concurrent_vector &operator=(const concurrent_vector &) = default;

    concurrent_vector &operator=(concurrent_vector &&) = default;

    template<typename It, typename = typename std::iterator_traits<It>::iterator_category>
    concurrent_vector(It b, It e) : d(b, e) {}

    template<typename... X>
    iterator emplace_back(X &&... x) {
        mtbb::Op op_(this);
        d.emplace_back(std::forward<X>(x)...);
        return std::prev(d.end());
    }

    iterator push_back(const T &t) { return emplace_back(t); }

    iterator push_back(T &&t) { return emplace_back(std::move(t)); }

    iterator grow_by(size_type n) {
        mtbb::Op op_(this);
        auto s = d.size();
        d.resize(s + n);
        return d.begin() + s;
    }

    iterator grow_by(size_type n, const T &v) {
        mtbb::Op op_(this);
        auto s = d.size();
        d.resize(s + n, v);
        return d.begin() + s;
    }

    template<typename It, typename = typename std::iterator_traits<It>::iterator_category>
    iterator grow_by(It b, It e) {
        mtbb::Op op_(this);
        auto s = d.size();
        d.insert(d.end(), b, e);
        return d.begin() + s;
    }

    iterator grow_to_at_least(size_type n) {
        mtbb::Op op_(this);
        auto s = d.size();
        if (n > s)
            d.resize(n);
        return d.begin() + s;
    }

    void resize(size_type n) { d.resize(n); }

    void resize(size_type n, const T &v) { d.resize(n, v); }

    void reserve(size_type) {}

    void clear() { d.clear(); }

    void shrink_to_fit() {}

    template<typename It>
    void assign(It b, It e) { d.assign(b, e); }

    void swap(concurrent_vector &o) { d.swap(o.d); }

    T &operator[](size_type i) { return d[i]; }

    const T &operator[](size_type i) const { return d[i]; }

    T &at(size_type i) { return d.at(i); }

    const T &at(size_type i) const { return d.at(i); }

    T &front() { return d.front(); }

    T &back() { return d.back(); }

    const T &front() const { return d.front(); }

    const T &back() const { return d.back(); }

    size_type size() const { return d.size(); }

    bool empty() const { return d.empty(); }

    size_type capacity() const { return d.size(); }

    size_type max_size() const { return d.max_size(); }

    iterator begin() { return d.begin(); }

    iterator end() { return d.end(); }

    const_iterator begin() const { return d.begin(); }

    const_iterator end() const { return d.end(); }

    const_iterator cbegin() const { return d.begin(); }

    const_iterator cend() const { return d.end(); }

    range_type range(size_type = 1) { return range_type(begin(), end()); }

    const_range_type range(size_type = 1) const { return const_range_type(begin(), end()); }

    bool operator==(const concurrent_vector &o) const { return d == o.d; }

    bool operator!=(const concurrent_vector &o) const { return d != o.d; }
};

template<typename T, typename A = std::allocator<T>>
class concurrent_queue {
    std::deque<T> d;

public:
    concurrent_queue() {}

    concurrent_queue(const concurrent_queue &o) : d(o.d) {}

    void push(const T &t) {
        mtbb::Op op_(this);
        d.push_back(t);
    }

    template<typename... X>
    void emplace(X &&... x) {
        mtbb::Op op_(this);
        d.emplace_back(std::forward<X>(x)...);
    }

    bool try_pop(T &t) {
        mtbb::Op op_(this);
        if (d.empty())
            return false;
        t = std::move(d.front());
        d.pop_front();
        return true;
    }

    bool empty() const {
        mtbb::Op op_(this, false);
        return d.empty();
    }

    std::size_t unsafe_size() const { return d.size(); }

    void clear() { d.clear(); }
};

template<typename T, typename A = std::allocator<T>>
using concurrent_bounded_queue = concurrent_queue<T, A>;

namespace internal {
template<typename Base>
class cu_base : public Base {
public:
    using Base::Base;
    typedef typename Base::iterator iterator;
    typedef typename Base::const_iterator const_iterator;
    typedef it_range<iterator> range_type;
    typedef it_range<const_iterator> const_range_type;

    cu_base() {}

    range_type range() { return range_type(this->begin(), this->end()); }

    const_range_type range() const { return const_range_type(this->begin(), this->end()); }

    template<typename X>
    auto insert(X &&x) {
        mtbb::Op op_(this);
        return Base::insert(std::forward<X>(x));
    }

    template<typename It>
    void insert(It b, It e) {
        for (; b != e; ++b)
            insert(*b);
    }

    template<typename... X>
    auto emplace(X &&... x) {
        mtbb::Op op_(this);
        return Base::emplace(std::forward<X>(x)...);
    }

    template<typename K>
    auto unsafe_erase(const K &k) { return Base::erase(k); }
};
} // namespace internal

template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<const K, V>>>
class concurrent_unordered_map : public internal::cu_base<std::unordered_map<K, V, H, E>> {
    typedef internal::cu_base<std::unordered_map<K, V, H, E>> B;

public:
    using B::B;

    concurrent_unordered_map() {}

    V &operator[](const K &k) {
        mtbb::Op op_(this);
        return B::operator[](k);
    }
};

template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<const K, V>>>
class concurrent_unordered_multimap : public internal::cu_base<std::unordered_multimap<K, V, H, E>> {
public:
    using internal::cu_base<std::unordered_multimap<K, V, H, E>>::cu_base;

    concurrent_unordered_multimap() {}
};

template<typename K, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
class concurrent_unordered_set : public internal::cu_base<std::unordered_set<K, H, E>> {
public:
    using internal::cu_base<std::unordered_set<K, H, E>>::cu_base;

    concurrent_unordered_set() {}
};

// ------------------------------------------------------------------ mutexes
class spin_mutex {
    bool locked = false;

public:
    spin_mutex() {}

    spin_mutex(const spin_mutex &) = delete;

    void lock() {
        if (mtbb::policy().lock(this))
            return;
        if (locked)
            abort(); // a sequential execution would wait for ever
        locked = true;
    }

    bool try_lock() {
        int r = mtbb::policy().tryLock(this);
        if (r >= 0)
            return r;
        if (locked)
            return false;
        return locked = true;
    }

    void unlock() {
        if (mtbb::policy().unlock(this))
            return;
        locked = false;
    }

    class scoped_lock {
        spin_mutex *m = nullptr;

    public:
        scoped_lock() {}

        explicit scoped_lock(spin_mutex &x) { acquire(x); }

        scoped_lock(spin_mutex &x, bool) { acquire(x); }

        scoped_lock(const scoped_lock &) = delete;

        ~scoped_lock() {
            if (m)
                m->unlock();
        }

        void acquire(spin_mutex &x, bool = true) {
            x.lock();
            m = &x;
        }

        bool try_acquire(spin_mutex &x) {
            if (!x.try_lock())
                return false;
            m = &x;
            return true;
        }

        void release() {
            m->unlock();
            m = nullptr;
        }
    };
};

typedef spin_mutex mutex;
typedef spin_mutex queuing_mutex;
typedef spin_mutex recursive_mutex;
typedef spin_mutex spin_rw_mutex;
typedef spin_mutex queuing_rw_mutex;

class task_scheduler_init {
public:
    static const int automatic = -1;
    static const int deferred = -2;

    explicit task_scheduler_init(int = automatic) {}

    void initialize(int = automatic) {}

    void terminate() {}

    static int default_num_threads() { return 2; }
};

struct tick_count {
    struct interval_t {
        double seconds() const { return 0; }
    };

    static tick_count now() { return tick_count(); }

    interval_t operator-(const tick_count &) const { return interval_t(); }
};

} // namespace tbb
