// U01: values pass whole through the program's own streams, or the stream says that they did not.
#include "calls.h"

#include <iomanip>
#include <istream>
#include <ostream>
#include <streambuf>

extern "C" { const char* scenario_name = "u01"; }

using namespace calls;

namespace {

struct Broken {};   // what a buffer throws

// A fault at a place in the text, whatever way the text gets there.
struct Fault
{
    size_t at;
    int kind;           // 0 refuses, 1 throws
    bool for_good;
};

struct Faults
{
    std::vector<Fault> all;
    uint32_t fired;
    Faults() : fired(0) {}
    // What happens to the byte at this place: -1 nothing, 0 refused, 1 the buffer throws.
    int meet(size_t at)
    {
        for (size_t k = 0; k < all.size(); ++k)
            if (all[k].at == at || (all[k].for_good && all[k].at < at))
            {
                const int kind = all[k].kind;
                if (!all[k].for_good) all.erase(all.begin() + (long)k);
                ++fired;
                return kind;
            }
        return -1;
    }
    size_t clear_until(size_t from, size_t end) const
    {
        size_t n = end;
        for (const Fault& f : all) { if (f.at >= from && f.at < n) n = f.at; if (f.for_good && f.at < from) n = from; }
        return n;
    }
};

struct Outside { Outside() { sim_lib_leave(); } ~Outside() { sim_lib_enter(); } };

class OutBuf : public std::streambuf
{
public:
    Str got;
    Faults faults;
    bool pieces;            // takes several bytes at once
    uint32_t sync_fails;    // so many of the next flushes
    OutBuf() : pieces(false), sync_fails(0) {}

protected:
    int_type overflow(int_type c) override
    {
        int f;
        {
            Outside o;
            if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
            f = faults.meet(got.size());
            if (f < 0) got += (char)c;
            else { sim_trace("the stream buffer %s byte %zu", f ? "throws at" : "refuses", got.size()); sim_count(f ? "fault:stream_throws" : "fault:stream_refuses", 1); }
        }
        if (f == 1) throw Broken();
        return f == 0 ? traits_type::eof() : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (!pieces) return std::streambuf::xsputn(s, n);
        std::streamsize done = 0;
        while (done < n)
        {
            {
                Outside o;
                const size_t to = faults.clear_until(got.size(), got.size() + (size_t)(n - done)) - got.size();
                got.append(s + done, to);
                done += (std::streamsize)to;
            }
            if (done < n && traits_type::eq_int_type(overflow(traits_type::to_int_type(s[done])), traits_type::eof())) return done;
            if (done < n) ++done;
        }
        return done;
    }
    int sync() override
    {
        Outside o;
        if (!sync_fails) return 0;
        --sync_fails;
        ++faults.fired;
        sim_trace("a flush fails");
        sim_count("fault:flush", 1);
        return -1;
    }
};

class InBuf : public std::streambuf
{
public:
    const Str& data;
    Faults faults;
    size_t chunk, next;
    Str area;
    InBuf(const Str& d, size_t c) : data(d), chunk(c), next(0) {}
    size_t position() const { return next - (size_t)(egptr() - gptr()); }

protected:
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        int f;
        {
            Outside o;
            if (next >= data.size()) return traits_type::eof();
            f = faults.meet(next);
            if (f < 0)
            {
                const size_t to = faults.clear_until(next, std::min(data.size(), next + chunk));
                area = data.substr(next, to - next);
                next = to;
                setg(&area[0], &area[0], &area[0] + area.size());
            }
            else { sim_trace("the stream buffer %s at byte %zu", f ? "throws" : "ends", next); sim_count(f ? "fault:stream_throws" : "fault:stream_ends", 1); }
        }
        if (f == 1) throw Broken();
        return f == 0 ? traits_type::eof() : traits_type::to_int_type(*gptr());
    }
};

std::ios_base::iostate mask()
{
    if (sim::chance(600)) return std::ios_base::goodbit;
    std::ios_base::iostate m = std::ios_base::goodbit;
    if (sim::chance(600)) m |= std::ios_base::badbit;
    if (sim::chance(500)) m |= std::ios_base::failbit;
    if (sim::chance(200)) m |= std::ios_base::eofbit;
    return m;
}

Str bits(std::ios_base::iostate s)
{
    Str t;
    if (s & std::ios_base::badbit) t += " bad";
    if (s & std::ios_base::failbit) t += " fail";
    if (s & std::ios_base::eofbit) t += " eof";
    return t.empty() ? " good" : t;
}

void set_faults(Faults& f, size_t space)
{
    const uint32_t n = sim::choose(4);
    for (uint32_t k = 0; k < n; ++k)
    {
        Fault x;
        x.at = sim::choose((uint32_t)space + 1);
        x.kind = (int)sim::choose(2);
        x.for_good = sim::chance(150);
        f.all.push_back(x);
    }
}

// a value of one of the kinds that can be written
struct Value
{
    uint32_t kind;
    String s;
    Caitlyn::Char c;
    Int i;
    Flo f;
    Doc d;
    Str is;             // its text
    void write(std::ostream& os) const
    {
        switch (kind)
        {
            case 0: os << s; break;
            case 1: os << c; break;
            case 2: os << i; break;
            case 3: os << f; break;
            default: os << d;
        }
    }
    Str read() const
    {
        switch (kind)
        {
            case 0: return s.str();
            case 1: return c.str();
            case 2: return i.ToString().str();
            case 3: return f.ToString().str();
            default: return d.ToString().str();
        }
    }
};

Value* value()
{
    const uint32_t kind = sim::choose(5);
    static const char* const ints[] = {"0", "7", "-12", "99999999999", "123456789012345678901"};
    static const char* const flos[] = {"0.5", "12.75", "1000.001", "9.99"};
    static const char* const docs[] = {"{}", "{\"k\":1}", "{\"k\":[1,2.5,true,null,\"\\u00e9x\"],\"b\":{\"c\":\"d\"}}", "{\"n\":-1234567,\"f\":[1000.25,\"a\\\"b\"]}"};
    Str t = text();
    if (kind == 0 && sim::chance(100)) for (uint32_t k = sim::choose(12); k > 0; --k) t += t.size() < 2000 ? t + "x" : "y";
    const uint32_t code = letter();
    const Str n = sim::pick(ints), fl = sim::pick(flos), j = sim::pick(docs);
    Value* v = nullptr;
    sim::lib([&] {
        v = new Value;
        v->kind = kind;
        if (kind == 0) v->s = String(t);
        if (kind == 1) v->c = Caitlyn::Char((Caitlyn::CodePoint)(code ? code : 0x41));
        if (kind == 2) v->i = Int(n.c_str());
        if (kind == 3) v->f = Flo(fl.c_str());
        if (kind == 4) v->d.Parse(String(j));
        v->is = v->read();
    });
    if (kind == 0 && v->is != t) sim::check_fail("wrong-text", "a text of " + sim::show(t) + " says it is " + sim::show(v->is));
    if (kind == 2 && v->is != n) sim::check_fail("wrong-text", "a number of " + sim::show(n) + " says it is " + sim::show(v->is));
    return v;
}

void decorate(std::ios& s, uint32_t kind)
{
    switch (sim::choose(8))
    {
        case 0: s.setf(std::ios_base::hex, std::ios_base::basefield); break;
        case 1: s.setf(std::ios_base::left, std::ios_base::adjustfield); break;
        case 2: s.setf(std::ios_base::scientific, std::ios_base::floatfield); s.setf(std::ios_base::showbase | std::ios_base::uppercase | std::ios_base::showpos); break;
        case 3: s.precision(1 + (int)sim::choose(3)); break;
        case 4: s.fill('*'); break;
        case 5: s.setf(std::ios_base::boolalpha); s.setf(std::ios_base::internal, std::ios_base::adjustfield); break;
        default: break;
    }
    if (kind != 4 && sim::chance(250)) s.width(1 + (int)sim::choose(12));
}

void writing()
{
    OutBuf buf;
    buf.pieces = sim::chance(500);
    std::ostream os(&buf);
    const bool faulty = sim::chance(700);
    if (faulty) set_faults(buf.faults, 60);
    if (sim::chance(150)) os.setf(std::ios_base::unitbuf);
    os.exceptions(mask());
    const uint32_t n = 1 + sim::choose(5);
    uint32_t whole = 0;
    for (uint32_t k = 0; k < n; ++k)
    {
        Value* v = value();
        if (sim::chance(400)) decorate(os, v->kind);
        // (where the C++ library itself can say so: its sentry is destroyed with an exception otherwise)
        if (faulty && os.flags() & std::ios_base::unitbuf && !(os.exceptions() & std::ios_base::badbit) && sim::chance(200)) buf.sync_fails = 1;
        const std::ios_base::iostate before = os.rdstate();
        const std::ios_base::fmtflags flags = os.flags();
        const size_t had = buf.got.size();
        const uint32_t fired = buf.faults.fired;
        // what the same stream would make of the text
        std::ostringstream same;
        same.flags(flags & ~std::ios_base::unitbuf); same.fill(os.fill()); same.width(os.width());
        same << v->is;
        const Str want = same.str();
        const std::streamsize precision = os.precision();
        const bool starved = faulty && sim::chance(150);
        if (starved) sim_alloc_arm(1 + sim::choose(4), sim::chance(300));
        const sim::Outcome r = sim::lib([&] { v->write(os); });
        const bool no_memory = starved && sim_alloc_fired();
        sim_alloc_arm(0, 0);
        const Str got = buf.got.substr(had);
        const Str about = Str(sim::kind_name(r.kind)) + bits(os.rdstate()) + ", written " + sim::show(got) + " of " + sim::show(want) + ", before" + bits(before) + ", exceptions" + bits(os.exceptions());
        sim_trace("write kind %u: %s", v->kind, about.c_str());
        const bool met = buf.faults.fired != fired;
        if (want.compare(0, got.size(), got) != 0) sim::check_fail("wrong-bytes", about);
        if (before != std::ios_base::goodbit)
        {
            if (!got.empty()) sim::check_fail("written-to-a-failed-stream", about);
            if (os.good()) sim::check_fail("failure-forgotten", about);
        }
        else if (met || no_memory)
        {
            if (os.good() && r.ok() && (got != want || met)) sim::check_fail("failure-not-reported", about);
            if (r.ok() && (os.rdstate() & os.exceptions())) sim::check_fail("exception-withheld", about);
        }
        else
        {
            if (got != want) sim::check_fail("wrong-bytes", about);
            if (!r.ok() || !os.good()) sim::check_fail("failed-for-no-reason", about);
            if (os.width() != 0 && v->kind != 4) sim::check_fail("width-kept", about);
            ++whole;
        }
        if (!r.ok() && !os.exceptions() && !no_memory) sim::check_fail("exception-not-asked-for", about);
        if (os.flags() != flags || os.precision() != precision) sim::check_fail("format-changed", about);
        Str now;
        sim::lib([&] { now = v->read(); });
        if (now != v->is) sim::check_fail("value-changed", about + ", the value is " + sim::show(now));
        sim::lib([&] { delete v; });
        os.width(0);
        // the program writes something itself, or mends the stream
        if (os.good()) { try { os << k << '|'; } catch (const std::exception&) {} catch (const Broken&) {} }
        else if (sim::chance(600)) os.clear();
    }
    if (whole || buf.faults.fired) sim_nontrivial();
    sim_count("probe:values written whole", whole);
    sim_count("probe:bytes", buf.got.size());
}

Str lines()
{
    Str t;
    const uint32_t n = sim::choose(6);
    for (uint32_t k = 0; k < n; ++k)
    {
        t += sim::chance(60) ? Str("ab\xFF") : text();
        if (sim::chance(60)) t += Str(200, 'l');
        if (k + 1 < n || sim::chance(500)) t += sim::chance(100) ? "\r\n" : "\n";
    }
    return t;
}

bool whole_letters(const Str& t)
{
    for (size_t k = 0; k < t.size();)
    {
        const unsigned char c = (unsigned char)t[k];
        const size_t n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
        if (!n || k + n > t.size()) return false;
        for (size_t j = 1; j < n; ++j) if (((unsigned char)t[k + j] & 0xC0) != 0x80) return false;
        k += n;
    }
    return true;
}

// one reader of the library's or of the C++ library's making
struct Reader
{
    InBuf buf;
    std::istream is;
    Str text;           // what the variable read into holds
    Reader(const Str& d, size_t chunk, const Faults& f, std::ios_base::iostate m) : buf(d, chunk), is(&buf), text("before") { buf.faults = f; try { is.exceptions(m); } catch (const std::ios_base::failure&) {} }
};

void reading()
{
    const Str data = lines();
    const size_t chunk = sim::chance(300) ? 1000 : 1 + sim::choose(6);
    Faults f;
    if (sim::chance(600)) set_faults(f, data.size());
    const std::ios_base::iostate m = mask();
    Reader mine(data, chunk, f, m), theirs(data, 1 + sim::choose(9), f, m);
    String* s = nullptr;
    sim::lib([&] { s = new String("before"); });
    const uint32_t n = 2 + sim::choose(9);
    uint32_t read = 0;
    bool looped = false;
    for (uint32_t k = 0; k < n; ++k)
    {
        if (sim::chance(150))   // the program reads something itself, or mends the stream
        {
            const uint32_t what = sim::choose(3);
            for (Reader* r : {&mine, &theirs})
                try
                {
                    switch (what)
                    {
                        case 0: r->is.clear(); break;
                        case 1: r->is.get(); break;
                        default: { int x; r->is >> x; }
                    }
                }
                catch (const std::exception&) {}
                catch (const Broken&) {}
        }
        const bool good = theirs.is.good();
        const Str old = theirs.text;
        Str line;
        const sim::Outcome want = sim::lib([&] { std::getline(theirs.is, line); });
        const bool starved = sim::chance(80);
        if (starved) sim_alloc_arm(1 + sim::choose(5), sim::chance(300));
        const sim::Outcome got = sim::lib([&] { mine.is >> *s; });
        const bool no_memory = starved && sim_alloc_fired();
        sim_alloc_arm(0, 0);
        Str now;
        sim::lib([&] { now = s->str(); });
        const Str about = Str(sim::kind_name(got.kind)) + bits(mine.is.rdstate()) + " " + sim::show(now) + " up to byte " + std::to_string(mine.buf.position()) + ", should be " + sim::kind_name(want.kind) + bits(theirs.is.rdstate()) + " " + sim::show(good ? line : old) + " up to byte " + std::to_string(theirs.buf.position());
        sim_trace("read: %s", about.c_str());
        if (no_memory)
        {
            // reported, and the text is the old one or the one that has been read
            if (got.ok() && mine.is.good() && now != line) sim::check_fail("failure-not-reported", about);
            if (now != old && line.compare(0, now.size(), now) != 0) sim::check_fail("wrong-text", about);
            break;
        }
        const bool valid = whole_letters(line);
        if (mine.buf.position() != theirs.buf.position()) sim::check_fail("wrong-position", about);
        if (mine.is.rdstate() != theirs.is.rdstate()) sim::check_fail("wrong-state", about);
        if (!valid)
        {
            if (now != old && now != line) sim::check_fail("wrong-text", about);
            theirs.text = now;
        }
        else if (want.ok())
        {
            theirs.text = good ? line : old;
            if (!got.ok()) sim::check_fail("failed-for-no-reason", about);
            if (now != theirs.text) sim::check_fail("wrong-text", about);
            if (good && theirs.is) ++read;
        }
        else
        {
            if (got.ok()) sim::check_fail("exception-withheld", about);
            if (now != old && now != line) sim::check_fail("wrong-text", about);
            theirs.text = now;
        }
        if (!theirs.is && sim::chance(400))
        {
            looped = true;
            for (Reader* r : {&mine, &theirs}) { try { r->is.clear(); } catch (const std::exception&) {} }
        }
    }
    // The usual loop ends with the text.
    if (!looped && !m)
    {
        size_t turns = 0;
        sim::lib([&] { while (mine.is >> *s) if (++turns > data.size() + 4) break; });
        if (turns > data.size() + 4) sim::check_fail("no-end", "reading line by line until the stream fails goes on after the end of " + sim::show(data));
    }
    sim::lib([&] { delete s; });
    if (read || mine.buf.faults.fired) sim_nontrivial();
    sim_count("probe:lines read", read);
}

void loading()
{
    static const char* const docs[] = {"{\"k\":1}", "{\"k\":[1,2.5,true,null,\"\\u00e9x\"],\"b\":{\"c\":\"d\"}}", "{\"n\":-1234567,\"f\":[1000.25,\"a\\\"b\"]}"};
    Str j = sim::pick(docs);
    if (sim::chance(300)) j.insert(1, "\"long\":\"" + Str(900 + sim::choose(400), 'v') + "\",");
    const Str front = sim::chance(300) ? "[0]\n" : "";
    const Str data = front + j;
    const size_t chunk = sim::chance(300) ? 4000 : 1 + sim::choose(600);
    InBuf buf(data, chunk);
    if (sim::chance(700)) set_faults(buf.faults, sim::chance(300) ? 1030 : data.size());
    std::istream is(&buf);
    is.exceptions(mask());
    Doc* d = nullptr;
    Str old, want, now;
    sim::lib([&] { d = new Doc; d->Parse(String("{\"old\":[1,2]}")); old = d->ToString().str(); Doc e; e.Parse(String(j)); want = e.ToString().str(); });
    Str line;
    if (!front.empty())
    {
        try { std::getline(is, line); } catch (const std::exception&) {} catch (const Broken&) {}
        if (buf.position() != front.size()) { sim::lib([&] { delete d; }); return; }   // the program did not get that far
    }
    const uint32_t before = buf.faults.fired;
    const bool starved = sim::chance(150);
    if (starved) sim_alloc_arm(1 + sim::choose(40), sim::chance(300));
    const uint32_t how = sim::choose(2);
    const sim::Outcome r = sim::lib([&] { if (how) d->Parse(&buf); else is >> *d; });
    const bool no_memory = starved && sim_alloc_fired();
    sim_alloc_arm(0, 0);
    bool error = false;
    sim::lib([&] { now = d->ToString().str(); error = d->HasError(); });
    const Str about = Str(sim::kind_name(r.kind)) + bits(is.rdstate()) + (error ? " error, " : ", ") + "the document is " + sim::show(now, 100) + ", the text " + sim::show(j, 100);
    sim_trace("load: %s", about.c_str());
    if (r.ok() && !error) { if (now != want) sim::check_fail("misread", about); }
    else
    {
        if (buf.faults.fired == before && !no_memory) sim::check_fail("failed-for-no-reason", about);
        if (now != old && now != "null" && now != "{}" && !now.empty()) sim::check_fail("half-loaded", about);
    }
    buf.faults.all.clear();
    // the same object loads the next text
    sim::lib([&] { d->Parse(String(j)); now = d->ToString().str(); error = d->HasError(); });
    if (error || now != want) sim::check_fail("next-load", about + ", and the next load of it gives " + sim::show(now, 100));
    sim::lib([&] { delete d; });
    sim_nontrivial();
    sim_count("probe:documents loaded", 1);
}

}  // namespace

extern "C" void scenario_run(void)
{
    const uint32_t what = sim::choose(5);
    sim::leakcheck([&] { if (what < 2) writing(); else if (what < 4) reading(); else loading(); });
    sim_sample("%s", what < 2 ? "writing" : what < 4 ? "reading" : "loading");
}
