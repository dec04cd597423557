// Random histories on file handles against a reference model: what the disk holds, and where each reader stands.
#ifndef FILE_ENGINE_H_
#define FILE_ENGINE_H_

#include "Caitlyn/__Core/File.h"
#include "../core/sim.h"

#include <memory>
#include <cstring>

namespace fe {

typedef std::string Str;

// user types accepted by the write overloads
struct WithToStringSnake { Str s; Str to_string() const { return s; } };
struct WithStr { Str s; Str str() const { return s; } };
struct WithToString { Str s; Caitlyn::String ToString() const { return Caitlyn::String(s); } };

inline bool valid_utf8(const Str& s)
{
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = (unsigned char)s[i];
        size_t n = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
        if (n == 0 || i + n > s.size()) return false;
        for (size_t k = 1; k < n; ++k) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
        i += n;
    }
    return true;
}

// a String ends at a null character
inline bool same_text(const Str& got, const Str& want)
{
    return got == want || (want.find('\0') != Str::npos && got == want.substr(0, want.find('\0')));
}

enum OpKind { O_WRITE, O_READLINE, O_READ, O_SETPOS, O_CLOSE, O_OPEN, O_ERASE, O_EOF, O_NEW, O_DROP, O_COPY, O_REWIND, O_MULTI, O_NKIND };

struct Config
{
    uint32_t weight[O_NKIND];
    bool multibyte, embedded_newlines;
    bool raw;               // some texts hold bytes that no text has: null characters and what is no UTF-8
    bool huge = false;            // some texts are longer than any buffer on the way
    bool odd_positions = false;   // positions before the start and past the end
    uint32_t max_text;      // largest text
    uint32_t big_permille;  // how often a text is large
    bool alloc_faults;
    int paths;
    int max_handles;
    const char* cls_prefix;
    Config() : multibyte(true), embedded_newlines(true), raw(false), max_text(40), big_permille(60), alloc_faults(false), paths(1), max_handles(2)
    {
        for (int i = 0; i < O_NKIND; ++i) weight[i] = 0;
    }
};

struct Failed
{
    Str text;
    std::vector<size_t> cuts;   // where what is left of it may start
};

struct Handle
{
    std::unique_ptr<Caitlyn::File> f;
    int path;
    bool open;          // model: the stream is open
    bool unknown;       // after a failed (re)open nothing is known about open
    long pos;           // where the next line starts
    bool eof;
    std::vector<Failed> failed;   // texts of reported failed writes the stream may still hold
};

inline uint32_t& name_style() { static uint32_t s; return s; }
inline const char* path_name(int p)
{
    static const char* const names[][3] = {
        {"/sim/a.txt", "/sim/b.txt", "/sim/c.txt"},
        {"/sim/a b", "/sim/ a", "/sim/a"},
        {"/sim/{}", "/sim/{", "/sim/}{0}"},
        {"/sim/\xC3\xA9\xE2\x82\xAC.\xF0\x9F\x98\x80", "/sim/\xC3\xA8", "/sim/e\n\\n"},
        {"/sim/a-name-of-a-file-that-no-string-keeps-in-place-because-it-is-longer-than-any-of-them-does-aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.txt",
         "/sim/a-name-of-a-file-that-no-string-keeps-in-place-because-it-is-longer-than-any-of-them-does-aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab.txt", "/sim/A.TXT"}};
    return names[name_style()][p < 2 ? p : 2];
}

struct Engine
{
    Config cfg;
    Str content[3];
    bool exists[3];
    std::vector<std::unique_ptr<Handle> > hs;
    uint32_t next_id;
    uint32_t ops_done, acked, reported, reads_ok;
    // the operation in progress, for judging a crash
    Str inflight;           // text being written
    int inflight_path;
    bool inflight_erase;
    bool inflight_any;
    std::vector<Failed> inflight_failed;

    Engine() : next_id(0), ops_done(0), acked(0), reported(0), reads_ok(0), inflight_path(0), inflight_erase(false), inflight_any(false)
    {
        exists[0] = exists[1] = exists[2] = false;
        name_style() = sim::chance(850) ? 0 : 1 + sim::choose(4);
    }

    // ---- texts ----------------------------------------------------------------------------------------------------
    Str make_text()
    {
        static const char* const pieces[] = {"a", "b", "c", "xy", " ", "\n", ",", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "0", ";",
                                             "\r", "\r\n", "\t", "{}", "%s", "\\n", "\x1A", "\xEF\xBB\xBF", "\x7F", "\n\n"};
        uint32_t n;
        if (sim::chance(cfg.big_permille))
        {
            static const uint32_t big[] = {100, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 8189, 8190, 8191, 8192, 8193, 9000, 12000};
            static const uint32_t huge[] = {32768, 65535, 65536, 65537, 70000, 131072, 131073, 262145};
            const bool is_huge = cfg.huge && sim::chance(150);
            n = is_huge ? sim::pick(huge) : sim::pick(big);
            if (!is_huge && n > cfg.max_text * 300u) n = cfg.max_text * 300u;
            Str s = "<" + std::to_string(next_id++) + ":";
            const char fill = (char)('a' + sim::choose(26));
            while (s.size() + 1 < n)
            {
                s += fill;
                if (cfg.embedded_newlines && s.size() % 97 == 0 && s.size() + 2 < n) s += '\n';
            }
            s += ">";
            return s;
        }
        n = sim::choose(cfg.max_text / 3 + 1);
        if (n == 0 && sim::chance(150)) return Str();
        const bool bare = sim::chance(60);      // blanks, line ends and the like at either end
        Str s = bare ? Str() : "<" + std::to_string(next_id++) + ":";
        if (bare && n > 3) n = 1 + n % 3;
        for (uint32_t i = 0; i < n; ++i)
        {
            Str p = sim::pick(pieces);
            if (!cfg.embedded_newlines && p.find('\n') != Str::npos) p = "n";
            if (!cfg.multibyte && (unsigned char)p[0] >= 0x80) p = "m";
            s += p;
        }
        if (!bare) s += ">";
        return s;
    }

    // Is r a sequence of pieces of failed texts?  A piece starts where a failed text (or several consecutive ones)
    // starts, or where one of the write calls that carried it started or the part that reached the file ends.
    static bool is_residue(const Str& r, const std::vector<Failed>& fs)
    {
        if (r.empty()) return true;
        std::vector<char> reach(r.size() + 1, 0);
        reach[0] = 1;
        for (size_t at = 0; at < r.size(); ++at)
        {
            if (!reach[at]) continue;
            for (size_t i = 0; i < fs.size(); ++i)
                for (size_t c = 0; c < fs[i].cuts.size(); ++c)
                {
                    Str j = fs[i].text.substr(fs[i].cuts[c]);
                    for (size_t k = i + 1; k < fs.size(); ++k) j += fs[k].text;
                    for (size_t k = 0; k < j.size() && at + k < r.size() && j[k] == r[at + k]; ++k) reach[at + k + 1] = 1;
                }
        }
        return reach[r.size()] != 0;
    }

    static bool ends_with(const Str& s, const Str& t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }

    // disk must be: content + residue of failed texts + text
    void judge_disk(Handle* h, int path, const Str& text, const char* op)
    {
        const Str now = sim::disk(path_name(path));
        const Str& was = content[path];
        if (now.size() < was.size() || now.compare(0, was.size(), was) != 0)
        {
            size_t d = 0;
            while (d < now.size() && d < was.size() && now[d] == was[d]) ++d;
            sim::check_fail("stored-text-changed", Str(op) + ": text stored earlier is lost or altered at byte " + std::to_string(d) + ": had " + sim::show(was.substr(d)) + " now " + sim::show(now.substr(d)));
        }
        const Str delta = now.substr(was.size());
        if (!ends_with(delta, text))
            sim::check_fail("acknowledged-text-missing", Str(op) + " returned normally but its text " + sim::show(text) + " is not at the end of the file; new bytes: " + sim::show(delta));
        const Str res = delta.substr(0, delta.size() - text.size());
        static const std::vector<Failed> none;
        if (!is_residue(res, h ? h->failed : none))
            sim::check_fail("foreign-text", Str(op) + ": bytes nobody wrote (or wrote twice) appeared in the file: " + sim::show(res));
        content[path] = now;
    }

    // after the process died
    void judge_crash()
    {
        for (int p = 0; p < cfg.paths; ++p)
        {
            const Str now = sim::disk(path_name(p));
            const Str& was = content[p];
            if (inflight_any && inflight_path == p && inflight_erase)
            {
                const bool more = now.size() > was.size() && now.compare(0, was.size(), was) == 0 && is_residue(now.substr(was.size()), inflight_failed);
                if (!(now == was || now.empty() || more)) sim::check_fail("erase-torn", "crash inside erase left " + sim::show(now) + ", neither the old contents nor none");
            }
            else
            {
                if (now.size() < was.size() || now.compare(0, was.size(), was) != 0)
                    sim::check_fail("acknowledged-text-lost", "after the crash the file does not begin with what was acknowledged: had " + std::to_string(was.size()) + " bytes ..." + sim::show(was.size() > 40 ? was.substr(was.size() - 40) : was) + " now " + std::to_string(now.size()) + " bytes ..." + sim::show(now.size() > 40 ? now.substr(now.size() - 40) : now));
                const Str delta = now.substr(was.size());
                bool ok = delta.empty();
                if (!ok && inflight_any && inflight_path == p)
                {
                    // residue + prefix of the text in flight
                    for (size_t k = 0; k <= delta.size() && !ok; ++k)
                    {
                        const Str tail = delta.substr(k);
                        if (tail.size() <= inflight.size() && inflight.compare(0, tail.size(), tail) == 0 && is_residue(delta.substr(0, k), inflight_failed)) ok = true;
                    }
                }
                if (!ok) sim::check_fail("crash-garbage", "after the crash the file holds bytes beyond the acknowledged ones that are no prefix of the call in progress: " + sim::show(delta) + " in progress: " + sim::show(inflight_any ? inflight : Str()));
            }
            content[p] = now;
        }
        forget_handles();
        inflight_any = false;
    }

    // the objects of a dead process are never destroyed
    void forget_handles()
    {
        for (size_t i = 0; i < hs.size(); ++i) hs[i]->f.release();
        hs.clear();
    }

    void drop_all()
    {
        while (!hs.empty()) do_drop(hs.size() - 1);
    }

    // ---- operations -----------------------------------------------------------------------------------------------
    struct Before { uint32_t errors; };

    Before before(Handle* h, const char* op, const Str& text, int path)
    {
        Before b;
        b.errors = sim_disk_errors();
        inflight = text;
        inflight_path = path;
        inflight_any = true;
        inflight_erase = false;
        inflight_failed = h ? h->failed : std::vector<Failed>();
        if (cfg.alloc_faults && sim::chance(250)) sim_alloc_arm(1 + sim::choose(30), sim::chance(200));
        else sim_alloc_arm(0, 0);
        sim_write_marks_reset();
        sim_trace("op %s %s", op, text.empty() ? "" : sim::show(text, 24).c_str());
        return b;
    }

    // returns true when the call succeeded; otherwise the failure is justified
    bool after(const Before& b, const sim::Outcome& o, const char* op)
    {
        const uint32_t fired = sim_alloc_fired();
        sim_alloc_arm(0, 0);
        inflight_any = false;
        ++ops_done;
        if (o.ok()) return true;
        sim_trace("  threw %s %s", sim::kind_name(o.kind), o.what.c_str());
        const bool err = sim_disk_errors() > b.errors;
        if (!err && !fired)
            sim::check_fail("spurious-failure", Str(op) + " threw " + sim::kind_name(o.kind) + " (" + o.what + ") although nothing failed underneath");
        if (!fired && o.kind != sim::IOS)
            sim::check_fail("wrong-exception", Str(op) + " threw " + sim::kind_name(o.kind) + " (" + o.what + ") for an I/O error");
        ++reported;
        sim_count("probe:reported_failures", 1);
        return false;
    }

    void sync_after_failure(Handle& h)
    {
        h.eof = h.f->IsEof();
        h.unknown = true;
    }

    void check_fds(const char* op)
    {
        int lo = 0, hi = 0;
        for (size_t i = 0; i < hs.size(); ++i) { if (hs[i]->unknown) ++hi; else if (hs[i]->open) { ++lo; ++hi; } }
        const int n = sim_open_fds();
        if (n > hi) sim::check_fail("descriptor-leak", Str("after ") + op + ": " + std::to_string(n) + " descriptors are open for " + std::to_string(hi) + " open handles");
        if (n < lo) sim::check_fail("descriptor-lost", Str("after ") + op + ": " + std::to_string(n) + " descriptors are open for " + std::to_string(lo) + " open handles");
    }

    Str piece_at(const Handle& h, char delim, long* next, bool* eof)
    {
        const Str& c = content[h.path];
        const size_t pos = (size_t)h.pos;
        if (pos >= c.size()) { *next = h.pos; *eof = true; return Str(); }
        const size_t e = c.find(delim, pos);
        if (e == Str::npos) { *next = (long)c.size(); *eof = true; return c.substr(pos); }
        *next = (long)e + 1;
        *eof = false;
        return c.substr(pos, e - pos);
    }

    void check_reader(Handle& h, const char* op)
    {
        const long p = (long)h.f->GetPosition();
        if (p != h.pos) sim::check_fail("position", Str(op) + ": the position is " + std::to_string(p) + ", expected " + std::to_string(h.pos));
        if (h.f->IsEof() != h.eof) sim::check_fail("end-of-file-flag", Str(op) + ": end of file is " + (h.eof ? "not reported" : "reported too early"));
        if (static_cast<bool>(*h.f) == h.eof) sim::check_fail("end-of-file-flag", Str(op) + ": the handle's truth value disagrees with its end of file");
    }

    void do_new(int path)
    {
        std::unique_ptr<Handle> h(new Handle);
        h->path = path; h->open = true; h->unknown = false; h->pos = 0; h->eof = false;
        const uint32_t how = sim::choose(4);
        const Before b = before(nullptr, "construct", Str(), path);
        Caitlyn::File* f = nullptr;
        const char* name = path_name(path);
        const Str snm(name + 5);
        {
            Caitlyn::String cn;
            const sim::Outcome o = sim::lib([&] {
                switch (how)
                {
                    case 0: f = new Caitlyn::File(Caitlyn::String(name)); break;
                    case 1: f = new Caitlyn::File(Caitlyn::String("/sim/{}"), Caitlyn::String(snm)); break;
                    case 2: f = new Caitlyn::File(Caitlyn::MakeFile(Caitlyn::String(name))); break;
                    default: f = new Caitlyn::File(operator""_file(name, strlen(name))); break;
                }
            });
            if (!after(b, o, "construct")) { check_fds("a failed construction"); return; }
        }
        h->f.reset(f);
        if (!exists[path]) { exists[path] = true; content[path].clear(); }
        judge_disk(h.get(), path, Str(), "construct");
        hs.push_back(std::move(h));
        check_reader(*hs.back(), "construct");
    }

    void do_copy(size_t i)
    {
        std::unique_ptr<Handle> h(new Handle);
        h->path = hs[i]->path; h->open = true; h->unknown = false; h->pos = 0; h->eof = false;
        const Before b = before(nullptr, "copy", Str(), h->path);
        Caitlyn::File* f = nullptr;
        const Caitlyn::File& src = *hs[i]->f;
        const sim::Outcome o = sim::lib([&] { f = new Caitlyn::File(src); });
        if (!after(b, o, "copy")) { check_fds("a failed copy"); return; }
        h->f.reset(f);
        exists[h->path] = true;
        judge_disk(h.get(), h->path, Str(), "copy");
        hs.push_back(std::move(h));
        check_reader(*hs.back(), "copy");
    }

    void do_drop(size_t i)
    {
        Handle& h = *hs[i];
        const Before b = before(&h, "destroy", Str(), h.path);
        sim_alloc_arm(0, 0);
        Caitlyn::File* f = h.f.release();
        const sim::Outcome o = sim::lib([&] { delete f; });
        after(b, o, "destroy");
        judge_disk(&h, h.path, Str(), "destroy");
        hs.erase(hs.begin() + (long)i);
        check_fds("destroy");
    }

    void do_close(Handle& h)
    {
        const Before b = before(&h, "close", Str(), h.path);
        const sim::Outcome o = sim::lib([&] { h.f->Close(); });
        const bool ok = after(b, o, "close");
        judge_disk(&h, h.path, Str(), "close");
        h.open = false;
        h.unknown = false;
        h.failed.clear();   // whatever the stream still held went with it
        if (!ok) h.eof = h.f->IsEof();
        check_fds("close");
    }

    void do_open(Handle& h)
    {
        const Before b = before(&h, "open", Str(), h.path);
        const bool was_open = h.open && !h.unknown;
        const sim::Outcome o = sim::lib([&] { h.f->Open(); });
        const bool ok = after(b, o, "open");
        judge_disk(&h, h.path, Str(), "open");
        if (ok)
        {
            h.open = true;
            if (!was_open) { if (h.unknown) h.eof = h.f->IsEof(); else h.eof = false; }
            h.unknown = false;
        }
        else sync_after_failure(h);
        if (!h.unknown) check_reader(h, "open");
        check_fds("open");
    }

    void do_write(Handle& h)
    {
        const uint32_t shape = sim::choose(6);   // const char*, String, to_string, str, ToString, formatted
        const uint32_t kind = sim::choose(4);    // Write, Append, WriteLine, AppendLine
        const bool line = kind >= 2;
        Str t = make_text();
        if (cfg.raw && (shape == 0 || shape == 2 || shape == 3) && sim::chance(400))
        {
            // these hand over any bytes
            static const char* const odd[] = {"\xFE", "\xFF", "\x80"};
            const size_t at = sim::choose((uint32_t)t.size() + 1);
            if (shape == 0 || sim::chance(500)) t.insert(at, sim::pick(odd)); else t.insert(at, 1, '\0');
        }
        Str fmt_tail;
        int num = 0;
        if (shape == 5 && sim::chance(500)) { num = (int)sim::choose(2000) - 1000; fmt_tail = "|" + std::to_string(num); }
        const Str full = t + fmt_tail + (line ? "\n" : "");
        static const char* const names[] = {"Write", "Append", "WriteLine", "AppendLine"};
        Caitlyn::File& f = *h.f;
        // arguments are made before the call, as a user would
        const bool parsed = shape == 1 || shape == 4 || shape == 5;
        const Caitlyn::String cs(parsed ? t : Str());
        WithToStringSnake a1; a1.s = t;
        WithStr a2; a2.s = t;
        WithToString a3; a3.s = t;
        const char* cp = t.c_str();
        const Caitlyn::String f1("{}"), f2("{}|{}");
        const Before b = before(&h, names[kind], full, h.path);
#define FE_CALL(M) \
        switch (shape) { \
            case 0: f.M(cp); break; case 1: f.M(cs); break; case 2: f.M(a1); break; case 3: f.M(a2); break; case 4: f.M(a3); break; \
            default: if (fmt_tail.empty()) f.M(f1, cs); else f.M(f2, cs, num); break; }
        const sim::Outcome o = sim::lib([&] {
            switch (kind)
            {
                case 0: FE_CALL(Write) break;
                case 1: FE_CALL(Append) break;
                case 2: FE_CALL(WriteLine) break;
                default: FE_CALL(AppendLine) break;
            }
        });
#undef FE_CALL
        const bool ok = after(b, o, names[kind]);
        if (ok)
        {
            exists[h.path] = true;
            judge_disk(&h, h.path, full, names[kind]);
            h.eof = false;
            h.open = true;
            h.unknown = false;
            ++acked;
            check_reader(h, names[kind]);
        }
        else
        {
            Failed fl;
            fl.text = full;
            fl.cuts.push_back(0);
            const Str now = sim::disk(path_name(h.path));
            const size_t grown = now.size() > content[h.path].size() ? now.size() - content[h.path].size() : 0;
            size_t reached = 0;
            for (size_t k = 1; k <= full.size() && k <= grown; ++k)
                if (now.compare(now.size() - k, k, full, 0, k) == 0) reached = k;
            if (reached && reached < full.size()) fl.cuts.push_back(reached);
            uint64_t marks[256];
            const uint32_t nm = sim_write_marks(marks, 256);
            for (uint32_t m = 0; m < nm; ++m)
                if (marks[m] > now.size() - reached && marks[m] < now.size()) fl.cuts.push_back((size_t)(marks[m] - (now.size() - reached)));
            h.failed.push_back(fl);
            judge_disk(&h, h.path, Str(), names[kind]);
            sync_after_failure(h);
        }
        check_fds(names[kind]);
    }

    // returns false when the line could not be read
    bool do_readline(Handle& h, char delim)
    {
        const Before b = before(&h, "ReadLine", Str(), h.path);
        Str got;
        {
            Caitlyn::String r;
            Caitlyn::File& f = *h.f;
            const bool dflt = delim == '\n' && sim::chance(500);
            const sim::Outcome o = sim::lib([&] { if (dflt) r = f.ReadLine(); else r = f.ReadLine(delim); });
            // was the handle closed, it was opened again, which withdraws the end of file
            if (!h.unknown && !h.open) h.eof = false;
            judge_disk(&h, h.path, Str(), "ReadLine");
            exists[h.path] = true;
            long next = h.pos;
            bool eof = h.eof;
            Str want;
            if (!h.eof) want = piece_at(h, delim, &next, &eof);
            // after a failed close, open or erase the handle may be closed, and then it was opened again
            if (h.unknown && h.eof && (!o.ok() || !r.IsEmpty() || (long)h.f->GetPosition() != h.pos || !h.f->IsEof()))
            {
                h.eof = false;
                want = piece_at(h, delim, &next, &eof);
            }
            if (!o.ok() && !valid_utf8(want) && (o.kind == sim::RUNTIME || o.kind == sim::LOGIC))
            {
                inflight_any = false;
                sim_alloc_arm(0, 0);
                sync_after_failure(h);
                h.unknown = false; h.open = true;
                check_reader(h, "ReadLine of broken text");
                return false;
            }
            if (!after(b, o, "ReadLine"))
            {
                if (h.f->GetPosition() != std::streampos(h.pos)) sim::check_fail("position", "a failed ReadLine moved the position from " + std::to_string(h.pos) + " to " + std::to_string((long)h.f->GetPosition()));
                sync_after_failure(h);
                check_fds("ReadLine");
                return false;
            }
            got = r.str();
            if (!same_text(got, want))
                sim::check_fail("wrong-line", "ReadLine at " + std::to_string(h.pos) + " returned " + sim::show(got) + " instead of " + sim::show(want));
            h.pos = next;
            h.eof = eof;
            h.open = true;
            h.unknown = false;
            ++reads_ok;
        }
        check_reader(h, "ReadLine");
        check_fds("ReadLine");
        return true;
    }

    void do_read(Handle& h)
    {
        const Before b = before(&h, "Read", Str(), h.path);
        Caitlyn::String r;
        Caitlyn::File& f = *h.f;
        const sim::Outcome o = sim::lib([&] { r = f.Read(); });
        if (!h.unknown && !h.open) h.eof = false;
        judge_disk(&h, h.path, Str(), "Read");
        exists[h.path] = true;
        if (!o.ok() && !valid_utf8(content[h.path]) && (o.kind == sim::RUNTIME || o.kind == sim::LOGIC))
        {
            inflight_any = false;
            sim_alloc_arm(0, 0);
            sync_after_failure(h);
            return;
        }
        if (!after(b, o, "Read")) { sync_after_failure(h); check_fds("Read"); return; }
        const Str got = r.str();
        if (!same_text(got, content[h.path]))
        {
            const Str& c = content[h.path];
            size_t d = 0;
            while (d < got.size() && d < c.size() && got[d] == c[d]) ++d;
            sim::check_fail("wrong-contents", "Read returned " + std::to_string(got.size()) + " bytes, the file has " + std::to_string(c.size()) + "; they differ at byte " + std::to_string(d) + ": " + sim::show(got.substr(d)) + " instead of " + sim::show(c.substr(d)));
        }
        if (h.unknown) h.eof = h.f->IsEof();
        h.open = true;
        h.unknown = false;
        ++reads_ok;
        check_reader(h, "Read");
        check_fds("Read");
    }

    void do_setpos(Handle& h, long to)
    {
        if (h.unknown || (!h.open && !cfg.odd_positions)) return;
        const Before b = before(&h, "SetPosition", Str(), h.path);
        Caitlyn::File& f = *h.f;
        const sim::Outcome o = sim::lib([&] { f.SetPosition(std::streampos(to)); });
        if (!h.open || to < 0)
        {
            // there is no such position: refused, and nothing changes
            sim_trace("  to %ld on %s handle: %s", to, h.open ? "an open" : "a closed", sim::kind_name(o.kind));
            const bool fired = sim_alloc_fired() != 0;
            sim_alloc_arm(0, 0);
            inflight_any = false;
            ++ops_done;
            if (o.ok()) sim::check_fail("impossible-position", "SetPosition(" + std::to_string(to) + ") on " + (h.open ? "an open" : "a closed") + " handle reported success");
            if (o.kind != sim::IOS && !fired) sim::check_fail("wrong-exception", Str("SetPosition threw ") + sim::kind_name(o.kind) + " (" + o.what + ") for an impossible position");
            sim_count("probe:refused_positions", 1);
            judge_disk(&h, h.path, Str(), "refused SetPosition");
            h.eof = h.f->IsEof();
            check_reader(h, "refused SetPosition");
            check_fds("refused SetPosition");
            return;
        }
        const bool ok = after(b, o, "SetPosition");
        judge_disk(&h, h.path, Str(), "SetPosition");
        sim_trace("  to %ld", to);
        if (ok) { h.pos = to; h.eof = false; }
        else h.eof = h.f->IsEof();
        check_reader(h, "SetPosition");
    }

    void do_erase(Handle& h)
    {
        const Str old = content[h.path];
        const Before b = before(&h, "Erase", Str(), h.path);
        inflight_erase = true;
        Caitlyn::File& f = *h.f;
        const sim::Outcome o = sim::lib([&] { f.Erase(); });
        const bool ok = after(b, o, "Erase");
        const Str now = sim::disk(path_name(h.path));
        if (ok)
        {
            if (!now.empty()) sim::check_fail("erase-ineffective", "Erase returned but the file still holds " + sim::show(now));
            content[h.path].clear();
            h.pos = 0; h.eof = false; h.open = true; h.unknown = false; h.failed.clear();
            // other readers of the same file stand beyond its end now
            check_reader(h, "Erase");
        }
        else
        {
            if (!now.empty()) { judge_disk(&h, h.path, Str(), "failed Erase"); }   // untouched (up to what the stream still held)
            else content[h.path].clear();
            h.failed.clear();
            const long p = (long)h.f->GetPosition();
            if (p != h.pos && p != 0) sim::check_fail("position", "a failed Erase moved the position to " + std::to_string(p));
            if (!now.empty() && p != h.pos) sim::check_fail("position", "a failed Erase that left the contents moved the position to " + std::to_string(p));
            h.pos = p;
            sync_after_failure(h);
        }
        check_fds("Erase");
    }

    void step()
    {
        uint32_t total = 0;
        uint32_t w[O_NKIND];
        for (int i = 0; i < O_NKIND; ++i) { w[i] = cfg.weight[i]; total += w[i]; }
        if (hs.empty()) { do_new((int)sim::choose((uint32_t)cfg.paths)); return; }
        uint32_t r = sim::choose(total);
        int op = 0;
        while (r >= w[op]) { r -= w[op]; ++op; }
        const size_t i = hs.size() > 1 ? sim::choose((uint32_t)hs.size()) : 0;
        Handle& h = *hs[i];
        static const char delims[] = {'\n', ',', ';', 'a', ' ', '>'};
        switch (op)
        {
            case O_WRITE: do_write(h); break;
            case O_READLINE:
            {
                static const char odd[] = {'\xFE', '\xFF', '\x80', '\0'};
                do_readline(h, sim::chance(700) ? '\n' : cfg.raw && sim::chance(500) ? sim::pick(odd) : sim::pick(delims));
                break;
            }
            case O_READ: do_read(h); break;
            case O_SETPOS:
            {
                const long n = (long)content[h.path].size();
                long to;
                switch (sim::choose(4))
                {
                    case 0: to = 0; break;
                    case 1: to = n; break;
                    case 2: to = h.pos <= n ? h.pos : n; break;
                    case 3: if (cfg.odd_positions && sim::chance(500)) { to = sim::chance(300) ? n + 1 + (long)sim::choose(6) + (sim::chance(300) ? 1L << (31 + sim::choose(10)) : 0) : -1 - (long)sim::choose(sim::chance(500) ? 3 : 5000); break; }
                    // fall through
                    default:
                        to = (long)sim::choose((uint32_t)n + 1);
                        while (to < n && ((unsigned char)content[h.path][(size_t)to] & 0xC0) == 0x80) ++to;   // not inside a character
                        break;
                }
                do_setpos(h, to);
                break;
            }
            case O_CLOSE: do_close(h); break;
            case O_OPEN: do_open(h); break;
            case O_ERASE: do_erase(h); break;
            case O_EOF: if (!h.unknown) check_reader(h, "IsEof"); break;
            case O_NEW: if ((int)hs.size() < cfg.max_handles) do_new((int)sim::choose((uint32_t)cfg.paths)); break;
            case O_DROP: do_drop(i); break;
            case O_COPY: if ((int)hs.size() < cfg.max_handles) do_copy(i); break;
            case O_REWIND: if (h.open && !h.unknown) do_setpos(h, (long)h.f->GetPosition()); break;
            case O_MULTI:
                for (int k = 0; k < 40 && !h.eof; ++k) if (!do_readline(h, '\n')) break;
                break;
            default: break;
        }
    }

    void seed_file(int path, uint32_t max_lines)
    {
        Str s;
        const uint32_t n = sim::choose(max_lines + 1);
        for (uint32_t i = 0; i < n; ++i)
        {
            s += make_text();
            if (i + 1 < n || sim::chance(600)) s += sim::chance(100) ? "\r\n" : "\n";
        }
        if (sim::chance(30)) s = "\xEF\xBB\xBF" + s;
        sim::disk_put(path_name(path), s);
        content[path] = s;
        exists[path] = true;
    }
};

}  // namespace fe
#endif
