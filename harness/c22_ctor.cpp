// C22: bulk construction, assignment, relocation, destruction: every range
// geometry within small arrays, for element types of every triviality class,
// with an object-lifetime monitor.
#include "mc.hpp"
#include <c4/ctor_dtor.hpp>
typedef std::string Str;

enum { SLOTS = 20 };
// ---------------------------------------------------------------- lifetime monitor
struct Cell { enum K { RAW, LIVE, GONE } k; int v; };
struct Mon
{
    char *base[2] = {nullptr, nullptr}; size_t sz = 1; Cell c[2][SLOTS]; Str bad;
    int nctor = 0, ncopy = 0, nmove = 0, nasg = 0, nmasg = 0, ndtor = 0;
    bool on = false;
    void fail(Str const& s) { if(bad.empty()) bad = s; }
    Cell *at(const void *p, const char *what)
    {
        for(int b = 0; b < 2; ++b) if(base[b] && (const char*)p >= base[b] && (const char*)p < base[b] + SLOTS * sz)
        {
            size_t off = (size_t)((const char*)p - base[b]);
            if(off % sz) { fail(Str(what) + " at an address between two elements"); return nullptr; }
            return &c[b][off / sz];
        }
        return nullptr; // a temporary
    }
    Str where(const void *p) const { for(int b = 0; b < 2; ++b) if(base[b] && (const char*)p >= base[b] && (const char*)p < base[b] + SLOTS * sz) return mc::fmt("%c[%ld]", 'A' + b, (long)((const char*)p - base[b]) / (long)sz); return "a temporary"; }
    void construct(const void *p, int v)
    {
        if(!on) return;
        Cell *x = at(p, "construction"); if(!x) return;
        if(x->k == Cell::LIVE) fail("constructed over the live object " + where(p));
        x->k = Cell::LIVE; x->v = v;
    }
    int from(const void *p, int v, bool move)
    {
        if(!on) return v;
        Cell *x = at(p, "read"); if(!x) return v;
        if(x->k != Cell::LIVE) { fail(Str(x->k == Cell::RAW ? "read from raw storage " : "read from the moved-from object ") + where(p)); return v; }
        int r = x->v; if(move) x->k = Cell::GONE;
        return r;
    }
    void assign(const void *p, int v)
    {
        if(!on) return;
        Cell *x = at(p, "assignment"); if(!x) return;
        if(x->k == Cell::RAW) fail("assigned to raw storage " + where(p));
        x->k = Cell::LIVE; x->v = v;
    }
    void destroy(const void *p)
    {
        if(!on) return;
        Cell *x = at(p, "destruction"); if(!x) return;
        if(x->k == Cell::RAW) fail("destroyed raw storage (or destroyed twice) " + where(p));
        x->k = Cell::RAW;
    }
} static M;

// ---------------------------------------------------------------- element types
struct Pod3 { unsigned char b[3]; };
struct Pod24 { double d; long l; int i; };
/// everything non-trivial; knows its address, so that a bytewise copy is noticed
struct Track
{
    int v; const Track *self;
    Track() : v(-7), self(this) { ++M.nctor; M.construct(this, -7); }
    explicit Track(int x) : v(x), self(this) { ++M.nctor; M.construct(this, x); }
    Track(int x, int y) : v(x * 100 + y), self(this) { ++M.nctor; M.construct(this, v); }
    Track(Track const& o) : self(this) { ++M.ncopy; v = M.from(&o, o.v, false); chk(o); M.construct(this, v); }
    Track(Track &&o) noexcept : self(this) { ++M.nmove; v = M.from(&o, o.v, true); chk(o); M.construct(this, v); }
    Track &operator=(Track const& o) { ++M.nasg; v = M.from(&o, o.v, false); chk(o); M.assign(this, v); return *this; }
    Track &operator=(Track &&o) noexcept { ++M.nmasg; v = M.from(&o, o.v, true); chk(o); M.assign(this, v); return *this; }
    ~Track() { ++M.ndtor; M.destroy(this); }
    static void chk(Track const& o) { if(M.on && o.self != &o) M.fail("an object was copied bytewise"); }
};
/// move only
struct Mover
{
    int v; const Mover *self;
    explicit Mover(int x = -7) : v(x), self(this) { ++M.nctor; M.construct(this, x); }
    Mover(Mover &&o) noexcept : self(this) { ++M.nmove; v = M.from(&o, o.v, true); M.construct(this, v); }
    Mover &operator=(Mover &&o) noexcept { ++M.nmasg; v = M.from(&o, o.v, true); M.assign(this, v); return *this; }
    ~Mover() { ++M.ndtor; M.destroy(this); }
};
/// non-trivial default constructor, otherwise trivial
struct Init { int v = 55; char c = 'x'; };
/// trivially constructible and copyable, counted assignment
struct Asg { int v; Asg() = default; Asg(Asg const&) = default; Asg(Asg&&) = default; Asg &operator=(Asg const& o) { ++M.nasg; v = o.v; return *this; } Asg &operator=(Asg &&o) noexcept { ++M.nmasg; v = o.v; return *this; } };
/// trivially assignable, counted copy and move construction
struct Cpy { int v; Cpy() = default; explicit Cpy(int x) : v(x) {} Cpy(Cpy const& o) : v(o.v) { ++M.ncopy; } Cpy(Cpy &&o) noexcept : v(o.v) { ++M.nmove; } Cpy &operator=(Cpy const&) = default; Cpy &operator=(Cpy&&) = default; };
/// trivial but for the destructor
struct Dtor { int v; ~Dtor() { ++M.ndtor; M.destroy(this); } };
enum class En : short { z = 0 };

template<class T> struct Tr;
#define TRAITS(T, track_, name_, setexpr, getexpr) template<> struct Tr<T> { enum { track = track_ }; static const char *name() { return name_; } static void set(T &t, int x) { setexpr; } static int get(T const& t) { return getexpr; } };
TRAITS(unsigned char, 0, "unsigned char", t = (unsigned char)x, t)
TRAITS(int, 0, "int", t = x, t)
TRAITS(double, 0, "double", t = x, (int)t)
TRAITS(char*, 0, "char*", t = (char*)(intptr_t)x, (int)(intptr_t)t)
TRAITS(En, 0, "enum", t = (En)x, (int)t)
TRAITS(Pod3, 0, "3-byte struct", (t.b[0] = t.b[1] = t.b[2] = (unsigned char)x), t.b[0] == t.b[1] && t.b[1] == t.b[2] ? t.b[0] : -99)
TRAITS(Pod24, 0, "24-byte struct", (t.d = x, t.l = x, t.i = x), t.d == t.l && t.l == t.i ? t.i : -99)
TRAITS(Init, 0, "struct with initialisers", t.v = x, t.v)
TRAITS(Asg, 0, "struct with own assignment", t.v = x, t.v)
TRAITS(Cpy, 0, "struct with own copy constructor", t.v = x, t.v)
TRAITS(Track, 1, "tracked", new ((void*)&t) Track(x), t.v)
TRAITS(Mover, 1, "tracked move-only", new ((void*)&t) Mover(x), t.v)
TRAITS(Dtor, 1, "struct with own destructor", (t.v = x, M.construct(&t, x)), t.v)

enum : int { UNTOUCHED = -1000, ANY = -1001, MOVED = -1002 };
/// two raw arrays and the expected content of every slot
template<class T> struct World
{
    mc::Buf ab, bb; T *a, *b; int ea[SLOTS], eb[SLOTS]; Str before[2];
    World() : ab(sizeof(T) * SLOTS, 0xB7), bb(sizeof(T) * SLOTS, 0xB7)
    {
        a = (T*)ab.p; b = (T*)bb.p; M = Mon(); M.base[0] = ab.p; M.base[1] = bb.p; M.sz = sizeof(T); M.on = true;
        for(int i = 0; i < SLOTS; ++i) { ea[i] = eb[i] = UNTOUCHED; M.c[0][i] = M.c[1][i] = {Cell::RAW, 0}; }
    }
    ~World() { M.on = false; }
    void put(int w, int i, int v) { Tr<T>::set((w ? b : a)[i], v); (w ? eb : ea)[i] = v; }
    void start() { before[0] = ab.str(); before[1] = bb.str(); M.nctor = M.ncopy = M.nmove = M.nasg = M.nmasg = M.ndtor = 0; }
    void check()
    {
        mc::T();
        MC_CHECK(M.bad.empty(), "%s", M.bad.c_str());
        for(int w = 0; w < 2; ++w) for(int i = 0; i < SLOTS; ++i)
        {
            int e = (w ? eb : ea)[i]; T *p = (w ? b : a) + i;
            bool same = memcmp(p, before[w].data() + sizeof(T) * (size_t)i, sizeof(T)) == 0;
            if(e == ANY) continue;
            if(e == UNTOUCHED) { MC_CHECK(same, "raw storage %c[%d] was written", 'A' + w, i); if(Tr<T>::track) MC_CHECK(M.c[w][i].k == Cell::RAW, "%c[%d] became an object", 'A' + w, i); continue; }
            if(e == MOVED) { if(Tr<T>::track) MC_CHECK(M.c[w][i].k != Cell::LIVE, "%c[%d] still holds its value", 'A' + w, i); continue; }
            if(Tr<T>::track)
            {
                MC_CHECK(M.c[w][i].k == Cell::LIVE && M.c[w][i].v == e, "%c[%d] is %s (value %d), expected the value %d", 'A' + w, i, M.c[w][i].k == Cell::LIVE ? "live" : "no live object", M.c[w][i].v, e);
                if(M.c[w][i].k != Cell::LIVE) continue;
            }
            MC_CHECK(Tr<T>::get(*p) == e, "%c[%d] has the value %d, expected %d", 'A' + w, i, Tr<T>::get(*p), e);
        }
        MC_CHECK(ab.ok() && bb.ok(), "memory before the array was written");
        mc::V();
    }
};
static int val(int i) { return 10 + i; }
#define GEO(what, ...) mc::S(); MC_CASE(mc::fmt("%s, " what, Tr<T>::name(), __VA_ARGS__), 

// ---------------------------------------------------------------- construct / destroy
template<class T> struct ConsDef { static int v() { return 0; } };
template<> struct ConsDef<Track> { static int v() { return -7; } };
template<> struct ConsDef<Mover> { static int v() { return -7; } };
template<> struct ConsDef<Init> { static int v() { return 55; } };
template<class T, class I> static void construct_default(const char *in)
{
    for(int o = 0; o < 4; ++o) for(int n = 0; n <= 8; ++n)
    {
        if(!mc::mine()) continue;
        GEO("construct_n(A+%d,%d) index %s", o, n, in) { World<T> w; w.start(); c4::construct_n(w.a + o, (I)n); for(int i = 0; i < n; ++i) w.ea[o + i] = ConsDef<T>::v(); w.check(); if(Tr<T>::track) MC_CHECK(M.nctor == n, "%d objects constructed", M.nctor); });
        if(n == 1) { GEO("construct(A+%d)", o) { World<T> w; w.start(); c4::construct(w.a + o); w.ea[o] = ConsDef<T>::v(); w.check(); }); }
    }
}
template<class T, class I> static void construct_val(const char *in)
{
    for(int o = 0; o < 4; ++o) for(int n = 0; n <= 8; ++n)
    {
        if(!mc::mine()) continue;
        GEO("construct_n(A+%d,%d,value) index %s", o, n, in) { World<T> w; T v(77); w.start(); c4::construct_n(w.a + o, (I)n, v); for(int i = 0; i < n; ++i) w.ea[o + i] = 77; w.check(); });
        if(n == 1) { GEO("construct(A+%d,value)", o) { World<T> w; T v(77); w.start(); c4::construct(w.a + o, v); w.ea[o] = 77; w.check(); }); }
    }
}
template<class T, class I> static void destroy_all(const char *in)
{
    for(int o = 0; o < 4; ++o) for(int n = 0; n <= 8; ++n) for(int extra = 0; extra < 3; ++extra)
    {
        if(!mc::mine()) continue;
        GEO("destroy_n(A+%d,%d) of %d objects, index %s", o, n, n + extra, in) {
            World<T> w; for(int i = 0; i < n + extra; ++i) w.put(0, o + i, val(i));
            w.start(); c4::destroy_n(w.a + o, (I)n);
            if(Tr<T>::track) { for(int i = 0; i < n; ++i) w.ea[o + i] = MOVED; MC_CHECK(M.ndtor == n, "%d objects destroyed", M.ndtor); }
            w.check(); });
        if(n == 1) { GEO("destroy(A+%d)", o) { World<T> w; w.put(0, o, 9); w.start(); c4::destroy(w.a + o); if(Tr<T>::track) { w.ea[o] = MOVED; MC_CHECK(M.ndtor == 1, "%d objects destroyed", M.ndtor); } w.check(); }); }
    }
}
// ---------------------------------------------------------------- copy
template<class T, class I, class = typename std::enable_if<std::is_copy_constructible<T>::value>::type> static void copies(const char *in)
{
    for(int o = 0; o < 3; ++o) for(int s = 0; s < 3; ++s) for(int n = 0; n <= 6; ++n) for(int sameArr = 0; sameArr < 2; ++sameArr)
    {
        if(!mc::mine()) continue;
        const int so = sameArr ? o + n + 1 + s : s; // disjoint ranges in one array or two
        #define PREP(live) World<T> w; for(int i = 0; i < n + 1; ++i) w.put(sameArr ? 0 : 1, so + i, val(i)); if(live) for(int i = 0; i < n; ++i) w.put(0, o + i, 90 + i); T *S = (sameArr ? w.a : w.b) + so; w.start();
        GEO("copy_construct_n(A+%d,%c+%d,%d) index %s", o, sameArr ? 'A' : 'B', so, n, in) { PREP(false) c4::copy_construct_n(w.a + o, (T const*)S, (I)n); for(int i = 0; i < n; ++i) w.ea[o + i] = val(i); w.check(); if(Tr<T>::track) MC_CHECK(M.ncopy == n, "%d copies", M.ncopy); });
        GEO("copy_assign_n(A+%d,%c+%d,%d) index %s", o, sameArr ? 'A' : 'B', so, n, in) { PREP(true) c4::copy_assign_n(w.a + o, (T const*)S, (I)n); for(int i = 0; i < n; ++i) w.ea[o + i] = val(i); w.check(); if(Tr<T>::track) MC_CHECK(M.nasg == n, "%d assignments", M.nasg); });
        GEO("copy_construct_n(A+%d,value,%d) index %s", o, n, in) { PREP(false) c4::copy_construct_n(w.a + o, (T const&)S[0], (I)n); for(int i = 0; i < n; ++i) w.ea[o + i] = val(0); w.check(); });
        GEO("copy_assign_n(A+%d,value,%d) index %s", o, n, in) { PREP(true) c4::copy_assign_n(w.a + o, (T const&)S[0], (I)n); for(int i = 0; i < n; ++i) w.ea[o + i] = val(0); w.check(); });
        if(n == 1)
        {
            GEO("copy_construct(A+%d,%c+%d)", o, sameArr ? 'A' : 'B', so) { PREP(false) c4::copy_construct(w.a + o, (T const*)S); w.ea[o] = val(0); w.check(); });
            GEO("copy_assign(A+%d,%c+%d)", o, sameArr ? 'A' : 'B', so) { PREP(true) c4::copy_assign(w.a + o, (T const*)S); w.ea[o] = val(0); w.check(); });
            GEO("copy_construct(A+%d,value)", o) { PREP(false) c4::copy_construct(w.a + o, (T const&)*S); w.ea[o] = val(0); w.check(); });
            GEO("copy_assign(A+%d,value)", o) { PREP(true) c4::copy_assign(w.a + o, (T const&)*S); w.ea[o] = val(0); w.check(); });
        }
    }
}
// ---------------------------------------------------------------- move
template<class T, class I> static void moves(const char *in)
{
    for(int o = 0; o < 3; ++o) for(int s = 0; s < 3; ++s) for(int n = 0; n <= 6; ++n) for(int sameArr = 0; sameArr < 2; ++sameArr)
    {
        if(!mc::mine()) continue;
        const int so = sameArr ? o + n + 1 + s : s;
        #define MARK(k) for(int i = 0; i < k; ++i) { w.ea[o + i] = val(i); if(Tr<T>::track) (sameArr ? w.ea : w.eb)[so + i] = MOVED; }
        GEO("move_construct_n(A+%d,%c+%d,%d) index %s", o, sameArr ? 'A' : 'B', so, n, in) { PREP(false) c4::move_construct_n(w.a + o, S, (I)n); MARK(n) w.check(); if(Tr<T>::track) MC_CHECK(M.nmove == n && M.ndtor == 0, "%d moves", M.nmove); });
        GEO("move_assign_n(A+%d,%c+%d,%d) index %s", o, sameArr ? 'A' : 'B', so, n, in) { PREP(true) c4::move_assign_n(w.a + o, S, (I)n); MARK(n) w.check(); if(Tr<T>::track) MC_CHECK(M.nmasg == n && M.ndtor == 0, "%d moves", M.nmasg); });
        if(n == 1)
        {
            GEO("move_construct(A+%d,%c+%d)", o, sameArr ? 'A' : 'B', so) { PREP(false) c4::move_construct(w.a + o, S); MARK(1) w.check(); });
            GEO("move_assign(A+%d,%c+%d)", o, sameArr ? 'A' : 'B', so) { PREP(true) c4::move_assign(w.a + o, S); MARK(1) w.check(); });
        }
    }
}
// ---------------------------------------------------------------- make room in place
template<class T, class I> static void rooms(const char *in)
{
    for(int o = 0; o < 2; ++o) for(int n = 0; n <= 7; ++n) for(int room = 0; room <= 8; ++room)
    {
        if(!mc::mine()) continue;
        GEO("make_room(A+%d, %d objects, room %d) index %s", o, n, room, in) {
            World<T> w; for(int i = 0; i < n; ++i) w.put(0, o + i, val(i));
            if(o) w.put(0, 0, 5);
            w.start(); c4::make_room(w.a + o, (I)n, (I)room);
            for(int i = 0; i < room && i < n; ++i) w.ea[o + i] = ANY;
            for(int i = 0; i < n; ++i) w.ea[o + room + i] = val(i);
            w.check(); });
        for(int pos = 0; pos <= n; ++pos) for(int spare : {0, 2})
        {
            GEO("make_room(A+%d, capacity %d, %d objects, pos %d, room %d) index %s", o, n + room + spare, n, pos, room, in) {
                World<T> w; for(int i = 0; i < n; ++i) w.put(0, o + i, val(i));
                w.start(); c4::make_room(w.a + o, (I)(n + room + spare), (I)n, (I)pos, (I)room);
                for(int i = pos; i < pos + room && i < n; ++i) w.ea[o + i] = ANY;
                for(int i = pos; i < n; ++i) w.ea[o + room + i] = val(i);
                w.check(); });
        }
        // destroy room in place
        if(room <= n)
        {
            GEO("destroy_room(A+%d, %d objects, room %d) index %s", o, n, room, in) {
                World<T> w; for(int i = 0; i < n + 2; ++i) w.put(0, o + i, val(i));
                if(o) w.put(0, 0, 5);
                w.start(); c4::destroy_room(w.a + o, (I)n, (I)room);
                for(int i = 0; i < n - room; ++i) w.ea[o + i] = val(room + i);
                for(int i = n - room; i < n; ++i) w.ea[o + i] = room == n && Tr<T>::track ? (int)MOVED : (int)ANY;
                w.check(); });
        }
    }
}
// ---------------------------------------------------------------- make/destroy room into another buffer
template<class T, class I, class = typename std::enable_if<std::is_copy_constructible<T>::value>::type> static void rooms2(const char *in)
{
    for(int o = 0; o < 3; ++o) for(int so = 0; so < 3; ++so) for(int n = 0; n <= 7; ++n) for(int room = 0; room <= 8; ++room) for(int pos = 0; pos < n || (pos == 0 && n == 0); ++pos)
    {
        if(!mc::mine()) continue;
        for(int form = 0; form < 2; ++form)
        {
            if(form && n + room == 0) continue;
            GEO("make_room(dst A+%d, src B+%d, %d objects, room %d, pos %d) form %d index %s", o, so, n, room, pos, form, in) {
                World<T> w; for(int i = 0; i < n + 1; ++i) w.put(1, so + i, val(i));
                w.start();
                if(form) c4::make_room(w.a + o, (I)(n + room + 1), (T const*)w.b + so, (I)n, (I)room, (I)pos); else c4::make_room(w.a + o, (T const*)w.b + so, (I)n, (I)room, (I)pos);
                for(int i = 0; i < n; ++i) w.ea[o + i + (i >= pos ? room : 0)] = val(i);
                w.check(); });
        }
        if(n && pos + room <= n)
        {
            GEO("destroy_room(dst A+%d, src B+%d, %d objects, room %d, pos %d) index %s", o, so, n, room, pos, in) {
                World<T> w; for(int i = 0; i < n + 1; ++i) w.put(1, so + i, val(i));
                w.start(); c4::destroy_room(w.a + o, (T const*)w.b + so, (I)n, (I)room, (I)pos);
                for(int i = 0; i < n; ++i) if(i < pos) w.ea[o + i] = val(i); else if(i >= pos + room) w.ea[o + i - room] = val(i);
                w.check(); });
        }
    }
}
#define FOR_ALL_COPYABLE(F) F(unsigned char) F(int) F(double) F(char*) F(En) F(Pod3) F(Pod24) F(Init) F(Asg) F(Cpy) F(Track)
#define FOR_ALL(F) FOR_ALL_COPYABLE(F) F(Mover)
static const char *B = "arrays of 20 elements of 13 types (scalars, plain structs, structs with one non-trivial member function each, fully tracked copyable and move-only), index types size_t, int and (partly) unsigned char: ";
#if MC_IN_PART(0)
SECTION(construct_destroy, 2)
{
    mc::bound(Str(B) + "construct, construct_n, destroy, destroy_n of 0-8 objects at offsets 0-3");
    #define F(T) construct_default<T, size_t>("size_t"); construct_default<T, int>("int"); construct_default<T, unsigned char>("unsigned char"); destroy_all<T, size_t>("size_t"); destroy_all<T, int>("int"); destroy_all<T, unsigned char>("unsigned char");
    FOR_ALL(F)
    #undef F
    destroy_all<Dtor, size_t>("size_t"); destroy_all<Dtor, int>("int");
    construct_val<int, size_t>("size_t"); construct_val<double, int>("int"); construct_val<Cpy, size_t>("size_t"); construct_val<Track, size_t>("size_t"); construct_val<Track, unsigned char>("unsigned char"); construct_val<unsigned char, size_t>("size_t");
}
#endif
#if MC_IN_PART(1)
SECTION(copy, 3)
{
    mc::bound(Str(B) + "copy_construct(_n), copy_assign(_n) from arrays and values, 0-6 objects, all disjoint offsets in one or two arrays");
    #define F(T) copies<T, size_t>("size_t"); copies<T, int>("int");
    FOR_ALL_COPYABLE(F)
    #undef F
}
#endif
#if MC_IN_PART(2)
SECTION(move, 3)
{
    mc::bound(Str(B) + "move_construct(_n), move_assign(_n), 0-6 objects, all disjoint offsets in one or two arrays");
    #define F(T) moves<T, size_t>("size_t"); moves<T, int>("int");
    FOR_ALL(F)
    #undef F
}
SECTION(room_in_place, 3)
{
    mc::bound(Str(B) + "make_room and destroy_room in place: 0-7 objects, every position, room 0-8");
    #define F(T) rooms<T, size_t>("size_t"); rooms<T, int>("int"); rooms<T, unsigned>("unsigned");
    FOR_ALL(F)
    #undef F
}
#endif
#if MC_IN_PART(3)
SECTION(room_other_buffer, 3)
{
    mc::bound(Str(B) + "make_room and destroy_room into another buffer: 0-7 objects, every position, room 0-8");
    #define F(T) rooms2<T, size_t>("size_t"); rooms2<T, int>("int");
    FOR_ALL_COPYABLE(F)
    #undef F
}
// ---------------------------------------------------------------- many objects
/// element with its own copy, move and destruction; no monitor
static long big_dtors = 0; static uintptr_t big_sum = 0; // number and addresses of the destroyed objects
struct Big { int v; Big *self; Big() : v(-7), self(this) {} explicit Big(int x) : v(x), self(this) {} Big(Big const& o) : v(o.v), self(this) { if(o.self != &o) v = -50; } Big(Big &&o) noexcept : v(o.v), self(this) { if(o.self != &o) v = -50; o.v = -60; } Big &operator=(Big const& o) { v = o.v; return *this; } Big &operator=(Big &&o) noexcept { v = o.v; o.v = -60; return *this; } ~Big() { ++big_dtors; big_sum += (uintptr_t)this; self = nullptr; v = -70; } };
template<class T> struct Counted { enum { yes = std::is_same<T, Big>::value }; };
TRAITS(Big, 0, "struct that knows its address", new ((void*)&t) Big(x), t.self == &t ? t.v : -99)
template<> struct ConsDef<Big> { static int v() { return -7; } };
/// the form with a position cannot be instantiated with index types that are promoted
template<class T, class I> static typename std::enable_if<(sizeof(I) >= sizeof(int)), bool>::type room_at(T *a, I cap, I n, I pos, I room) { c4::make_room(a, cap, n, pos, room); return true; }
template<class T, class I> static typename std::enable_if<(sizeof(I) < sizeof(int)), bool>::type room_at(T*, I, I, I, I) { return false; }
template<class T, class I> static void many(const char *in, std::vector<size_t> ns)
{
    for(size_t n : ns)
    {
        if(!mc::mine()) continue;
        auto vl = [](size_t i) { return (int)(i * 7 % 120 + 1 + i / 40 % 8); };
        std::vector<char> am((2 * n + 400) * sizeof(T) + 64), bm(am.size()); T *a = (T*)(((uintptr_t)am.data() + 63) / 64 * 64), *b = (T*)(((uintptr_t)bm.data() + 63) / 64 * 64);
        auto fill = [&](T *p, size_t k) { for(size_t i = 0; i < k; ++i) Tr<T>::set(p[i], vl(i)); };
        #define AT(p, i, e) { int g_ = Tr<T>::get((p)[i]); if(g_ != (e)) { mc::violation("element %zu has the value %d, expected %d", (size_t)(i), g_, (int)(e)); break; } }
        #define AT1(p, i, e) { int g_ = Tr<T>::get((p)[i]); MC_CHECK(g_ == (e), "element %zu has the value %d, expected %d", (size_t)(i), g_, (int)(e)); }
        #define CASE(what, ...) { mc::S(); MC_CASE(mc::fmt("%s, %zu objects, index %s: " what, Tr<T>::name(), n, in), { memset((void*)a, 0xB7, (2 * n + 390) * sizeof(T)); memset((void*)b, 0xB7, (2 * n + 390) * sizeof(T)); __VA_ARGS__ mc::T(); mc::V(); }); }
        auto raw = [&](T *p) { for(size_t i = 0; i < sizeof(T); ++i) if(((unsigned char*)p)[i] != 0xB7) return false; return true; };
        CASE("construct_n", c4::construct_n(a, (I)n); for(size_t i = 0; i < n; ++i) AT(a, i, ConsDef<T>::v()) MC_CHECK(raw(a + n), "written behind the range");)
        CASE("copy_construct_n", fill(b, n); c4::copy_construct_n(a, (T const*)b, (I)n); for(size_t i = 0; i < n; ++i) { AT(a, i, vl(i)) AT(b, i, vl(i)) } MC_CHECK(raw(a + n), "written behind the range");)
        CASE("copy_construct_n of a value", fill(b, 1); c4::copy_construct_n(a, (T const&)b[0], (I)n); for(size_t i = 0; i < n; ++i) AT(a, i, vl(0)) MC_CHECK(raw(a + n), "written behind the range");)
        CASE("copy_assign_n", fill(b, n); for(size_t i = 0; i < n; ++i) Tr<T>::set(a[i], 99); c4::copy_assign_n(a, (T const*)b, (I)n); for(size_t i = 0; i < n; ++i) AT(a, i, vl(i)) MC_CHECK(raw(a + n), "written behind the range");)
        CASE("copy_assign_n of a value", fill(b, 1); for(size_t i = 0; i < n; ++i) Tr<T>::set(a[i], 99); c4::copy_assign_n(a, (T const&)b[0], (I)n); for(size_t i = 0; i < n; ++i) AT(a, i, vl(0)) MC_CHECK(raw(a + n), "written behind the range");)
        CASE("move_construct_n", fill(b, n); c4::move_construct_n(a, b, (I)n); for(size_t i = 0; i < n; ++i) AT(a, i, vl(i)) MC_CHECK(raw(a + n), "written behind the range");)
        CASE("move_assign_n", fill(b, n); for(size_t i = 0; i < n; ++i) Tr<T>::set(a[i], 99); c4::move_assign_n(a, b, (I)n); for(size_t i = 0; i < n; ++i) AT(a, i, vl(i)) MC_CHECK(raw(a + n), "written behind the range");)
        auto sum = [&](T *p, size_t k) { uintptr_t r = 0; for(size_t i = 0; i < k; ++i) r += (uintptr_t)(p + i); return r; };
        CASE("destroy_n", fill(a, n + 1); big_dtors = 0; big_sum = 0; c4::destroy_n(a, (I)n); AT1(a, n, vl(n)) if(Counted<T>::yes) MC_CHECK(big_dtors == (long)n && big_sum == sum(a, n), "%ld objects destroyed", big_dtors);)
        CASE("destroy_room of all objects", fill(a, n + 1); big_dtors = 0; big_sum = 0; c4::destroy_room(a, (I)n, (I)n); AT1(a, n, vl(n)) if(Counted<T>::yes) MC_CHECK(big_dtors == (long)n && big_sum == sum(a, n), "%ld objects destroyed", big_dtors);)
        CASE("construct_n with an argument", { T v = T(); Tr<T>::set(v, 33); c4::construct_n(a, (I)n, v); } for(size_t i = 0; i < n; ++i) AT(a, i, 33) MC_CHECK(raw(a + n), "written behind the range");)
        for(size_t room : {(size_t)1, (size_t)2, n / 2, n - 1, n, n + 1, (size_t)255, (size_t)256})
        {
            if((size_t)(I)(n + room) != n + room || (I)(n + room) < 0 || room > n + 300) continue;
            CASE("make_room in place", fill(a, n); c4::make_room(a, (I)n, (I)room); for(size_t i = 0; i < n; ++i) AT(a, room + i, vl(i)) MC_CHECK(raw(a + n + room), "written behind the range");)
            for(size_t pos : {(size_t)0, (size_t)1, n / 2, n - 1, n})
            {
                CASE("make_room in place at a position", fill(a, n); if(room_at(a, (I)(n + room), (I)n, (I)pos, (I)room)) for(size_t i = 0; i < n; ++i) AT(a, i + (i >= pos ? room : 0), vl(i)) MC_CHECK(raw(a + n + room), "written behind the range");)
                if(pos < n) CASE("make_room in another buffer", fill(b, n); c4::make_room(a, (T const*)b, (I)n, (I)room, (I)pos); for(size_t i = 0; i < n; ++i) { AT(a, i + (i >= pos ? room : 0), vl(i)) AT(b, i, vl(i)) } MC_CHECK(raw(a + n + room), "written behind the range");)
                if(pos < n && pos + room <= n) CASE("destroy_room in another buffer", fill(b, n); c4::destroy_room(a, (T const*)b, (I)n, (I)room, (I)pos); for(size_t i = 0; i < n; ++i) if(i < pos || i >= pos + room) AT(a, i - (i < pos ? 0 : room), vl(i)) MC_CHECK(raw(a + n - room), "written behind the range");)
            }
            if(room <= n) CASE("destroy_room in place", fill(a, n); c4::destroy_room(a, (I)n, (I)room); for(size_t i = 0; i < n - room; ++i) AT(a, i, vl(room + i)) MC_CHECK(raw(a + n), "written behind the range");)
        }
    }
}
SECTION(many_objects, 4)
{
    mc::bound("9-127 and 9-255 objects with 8-bit index types, 9-300 and 65535-65537 objects with 16-bit, int and size_t index types; every operation; rooms and positions at the ends and the middle");
    std::vector<size_t> s8 = mc::lens(9, 70, {120, 126, 127}), u8 = mc::lens(9, 40, {120, 127, 128, 129, 200, 254, 255}), s16 = mc::lens(9, 70, {127, 128, 129, 255, 256, 257, 300, 32767}), w = mc::lens(9, 130, {127, 128, 129, 255, 256, 257, 300, 513, 32767, 32768, 65535, 65536, 65537});
    #define F(T) many<T, int8_t>("int8", s8); many<T, uint8_t>("uint8", u8); many<T, int16_t>("int16", s16); many<T, int>("int", w); many<T, size_t>("size_t", w);
    F(unsigned char) F(int) F(Pod3) F(Big)
    #undef F
}
template<class T> static void tail(int which)
{
    MC_CASE(mc::fmt("destroy_room in place, %s, %s", Tr<T>::name(), which ? "removed objects that no survivor replaces (n-room <= i < room < n)" : "other positions behind the survivors"), {
        Str first;
        for(int n = 1; n <= 7; ++n) for(int room = 1; room <= n; ++room)
        {
            World<T> w; for(int i = 0; i < n; ++i) w.put(0, i, val(i));
            w.start(); c4::destroy_room(w.a, n, room); mc::T(); mc::S();
            for(int i = n - room; i < n; ++i) if((i < room && room < n) == (which == 1) && M.c[0][i].k == Cell::LIVE && first.empty()) first = mc::fmt("destroy_room(buf, %d, %d) leaves the object at %d alive", n, room, i);
        }
        MC_CHECK(first.empty(), "%s", first.c_str());
        mc::V();
    });
}
SECTION(removed_objects, 1)
{
    mc::bound("destroy_room in place of tracked types: 1-7 objects, every room: no removed object stays alive behind the survivors");
    for(int k = 0; k < 2; ++k) { tail<Track>(k); tail<Mover>(k); }
}
#endif
#if MC_IN_PART(4)
// ---------------------------------------------------------------- every combination of trivial and own member functions
// Each own member function leaves its mark; what the library does is compared with the same operation written in plain C++.
template<bool> struct HasCopy { int s; }; template<> struct HasCopy<true> { int s; HasCopy() = default; HasCopy(HasCopy const& o) : s(o.s + 1) {} HasCopy(HasCopy&&) = default; HasCopy &operator=(HasCopy const&) = default; HasCopy &operator=(HasCopy&&) = default; };
template<bool> struct HasMove { int s; }; template<> struct HasMove<true> { int s; HasMove() = default; HasMove(HasMove const&) = default; HasMove(HasMove &&o) noexcept : s(o.s + 100) { o.s += 5; } HasMove &operator=(HasMove const&) = default; HasMove &operator=(HasMove&&) = default; };
template<bool> struct HasAsg { int s; }; template<> struct HasAsg<true> { int s; HasAsg() = default; HasAsg(HasAsg const&) = default; HasAsg(HasAsg&&) = default; HasAsg &operator=(HasAsg const& o) { s = o.s + 1; return *this; } HasAsg &operator=(HasAsg&&) = default; };
template<bool> struct HasMasg { int s; }; template<> struct HasMasg<true> { int s; HasMasg() = default; HasMasg(HasMasg const&) = default; HasMasg(HasMasg&&) = default; HasMasg &operator=(HasMasg const&) = default; HasMasg &operator=(HasMasg &&o) noexcept { s = o.s + 100; o.s += 5; return *this; } };
static long mix_dtors = 0;
template<bool> struct HasDtor { int s; }; template<> struct HasDtor<true> { int s; HasDtor() = default; HasDtor(HasDtor const&) = default; HasDtor(HasDtor&&) = default; HasDtor &operator=(HasDtor const&) = default; HasDtor &operator=(HasDtor&&) = default; ~HasDtor() { ++mix_dtors; } };
template<int F> struct Mix : HasCopy<(F & 1) != 0>, HasMove<(F & 2) != 0>, HasAsg<(F & 4) != 0>, HasMasg<(F & 8) != 0>, HasDtor<(F & 16) != 0>
{
    int v;
    static Str name() { return mc::fmt("struct with own%s%s%s%s%s", F & 1 ? " copy" : "", F & 2 ? " move" : "", F & 4 ? " assignment" : "", F & 8 ? " move-assignment" : "", F & 16 ? " destructor" : ""); }
    void fill(int i) { v = 10 + i; HasCopy<(F & 1) != 0>::s = 1000 + i; HasMove<(F & 2) != 0>::s = 2000 + i; HasAsg<(F & 4) != 0>::s = 3000 + i; HasMasg<(F & 8) != 0>::s = 4000 + i; HasDtor<(F & 16) != 0>::s = i; }
    bool same(Mix const& o, bool copymark = true) const
    {
        return v == o.v && (!copymark || HasCopy<(F & 1) != 0>::s == o.HasCopy<(F & 1) != 0>::s) && HasMove<(F & 2) != 0>::s == o.HasMove<(F & 2) != 0>::s
            && HasAsg<(F & 4) != 0>::s == o.HasAsg<(F & 4) != 0>::s && HasMasg<(F & 8) != 0>::s == o.HasMasg<(F & 8) != 0>::s;
    }
};
template<int F> struct MixPair
{
    typedef Mix<F> T; enum { N = 24 };
    alignas(T) char m[4][sizeof(T) * N]; T *a, *b, *ra, *rb; // the arrays of the library and of the plain operations
    MixPair() { a = (T*)m[0]; b = (T*)m[1]; ra = (T*)m[2]; rb = (T*)m[3]; memset((void*)m, 0x5a, sizeof m); for(int i = 0; i < N; ++i) { b[i].fill(i); rb[i].fill(i); a[i].fill(50 + i); ra[i].fill(50 + i); } mix_dtors = 0; }
    void check(long dtors = 0) { mc::T(); for(int i = 0; i < N; ++i) { MC_CHECK(a[i].same(ra[i]), "destination[%d] differs from what the operation on single objects gives", i); MC_CHECK(b[i].same(rb[i]), "source[%d] differs from what the operation on single objects gives", i); } MC_CHECK(mix_dtors == dtors, "%ld objects destroyed, expected %ld", mix_dtors, dtors); mc::V(); }
};
#define MIX(what, ...) mc::S(); MC_CASE(mc::fmt("%s, %s, %d objects", Mix<F>::name().c_str(), what, n), { MixPair<F> w; __VA_ARGS__ });
template<int F, class I> static void mixed()
{
    typedef Mix<F> T;
    for(int n = 0; n <= 5; ++n)
    {
        if(!mc::mine()) continue;
        MIX("copy_construct_n", c4::copy_construct_n(w.a, (T const*)w.b, (I)n); for(int i = 0; i < n; ++i) new ((void*)(w.ra + i)) T(w.rb[i]); w.check();)
        MIX("copy_construct_n of a value", c4::copy_construct_n(w.a, (T const&)w.b[3], (I)n); for(int i = 0; i < n; ++i) new ((void*)(w.ra + i)) T(w.rb[3]); w.check();)
        MIX("copy_assign_n", c4::copy_assign_n(w.a, (T const*)w.b, (I)n); for(int i = 0; i < n; ++i) w.ra[i] = w.rb[i]; w.check();)
        MIX("copy_assign_n of a value", c4::copy_assign_n(w.a, (T const&)w.b[3], (I)n); for(int i = 0; i < n; ++i) w.ra[i] = w.rb[3]; w.check();)
        MIX("move_construct_n", c4::move_construct_n(w.a, w.b, (I)n); for(int i = 0; i < n; ++i) new ((void*)(w.ra + i)) T(std::move(w.rb[i])); w.check();)
        MIX("move_assign_n", c4::move_assign_n(w.a, w.b, (I)n); for(int i = 0; i < n; ++i) w.ra[i] = std::move(w.rb[i]); w.check();)
        if(n == 1)
        {
            MIX("copy_construct", c4::copy_construct(w.a, (T const*)w.b); new ((void*)w.ra) T(w.rb[0]); w.check();)
            MIX("copy_construct of a value", c4::copy_construct(w.a, (T const&)w.b[0]); new ((void*)w.ra) T(w.rb[0]); w.check();)
            MIX("copy_assign", c4::copy_assign(w.a, (T const*)w.b); w.ra[0] = w.rb[0]; w.check();)
            MIX("copy_assign of a value", c4::copy_assign(w.a, (T const&)w.b[0]); w.ra[0] = w.rb[0]; w.check();)
            MIX("move_construct", c4::move_construct(w.a, w.b); new ((void*)w.ra) T(std::move(w.rb[0])); w.check();)
            MIX("move_assign", c4::move_assign(w.a, w.b); w.ra[0] = std::move(w.rb[0]); w.check();)
            MIX("destroy", c4::destroy(w.a); w.check(F & 16 ? 1 : 0);)
        }
        MIX("destroy_n", c4::destroy_n(w.a, (I)n); w.check(F & 16 ? n : 0);)
        for(int room = 0; room <= 7; ++room)
        {
            // every object is moved once; what the places in between hold is not judged
            MIX(mc::fmt("make_room of %d", room).c_str(), c4::make_room(w.b, (I)n, (I)room); mc::T(); if(room) for(int i = 0; i < n; ++i) { T x(std::move(w.rb[i])); MC_CHECK(w.b[room + i].same(x), "object %d was not moved, or not once", i); } for(int i = n + room; i < w.N; ++i) MC_CHECK(w.b[i].same(w.rb[i]), "object %d behind the room changed", i); mc::V();)
            if(room < n) { MIX(mc::fmt("destroy_room of %d", room).c_str(), c4::destroy_room(w.b, (I)n, (I)room); mc::T(); if(room) for(int i = 0; i < n - room; ++i) { T x; x.fill(70); x = std::move(w.rb[i + room]); MC_CHECK(w.b[i].same(x), "object %d was not moved, or not once", i); } for(int i = n; i < w.N; ++i) MC_CHECK(w.b[i].same(w.rb[i]), "object %d behind the last changed", i); mc::V();) }
            for(int pos = 0; pos < n; ++pos)
            {
                // (a type whose moves are trivial may be relocated without its copy constructor)
                MIX(mc::fmt("make_room of %d at %d, other buffer", room, pos).c_str(), c4::make_room(w.a, (T const*)w.b, (I)n, (I)room, (I)pos); mc::T(); for(int i = 0; i < n; ++i) { T x(w.rb[i]); MC_CHECK(w.a[i + (i >= pos ? room : 0)].same(x, (F & 2) || !(F & 1)), "object %d was not copied, or not once", i); } mc::V();)
                if(pos + room <= n) { MIX(mc::fmt("destroy_room of %d at %d, other buffer", room, pos).c_str(), c4::destroy_room(w.a, (T const*)w.b, (I)n, (I)room, (I)pos); mc::T(); for(int i = 0; i < n; ++i) if(i < pos || i >= pos + room) { T x(w.rb[i]); MC_CHECK(w.a[i < pos ? i : i - room].same(x, (F & 2) || !(F & 1)), "object %d was not copied, or not once", i); } mc::V();) }
            }
        }
    }
}
template<int F> struct AllMixed { static void go() { mixed<F, size_t>(); AllMixed<F - 1>::go(); } };
template<> struct AllMixed<-1> { static void go() {} };
SECTION(mixed_types, 2)
{
    mc::bound("all 32 combinations of own and trivial copy constructor, move constructor, copy assignment, move assignment and destructor: every bulk operation on 0-5 objects (room 0-7, every position) against the same operation on single objects");
    mc::sample("struct with own move-assignment, move_assign_n, 3 objects");
    AllMixed<31>::go(); mixed<15, int>(); mixed<0, int>();
}
#endif
MC_MAIN
