#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace pbt {

namespace {

std::vector<Target>& targets()
{
    static std::vector<Target> instance;
    return instance;
}

std::set<std::string> known_ids;
std::string scratch;

uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t hash_string(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char ch: s) { h = (h ^ ch) * 1099511628211ull; }
    return h;
}

double now()
{
    return std::chrono::duration<double>(
        std::chrono::steady_clock::now().time_since_epoch()).count();
}

size_t const tape_capacity = 1u << 18;

struct Shared
{
    volatile size_t target;
    volatile size_t case_idx;
    volatile double started;
    volatile int state;      // 0 running, 1 failed, 2 done.
    size_t length;
    char message[8192];
    char description[32768];
    uint64_t tape[tape_capacity];
};

Shared* make_shared_block()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); std::exit(3); }
    return static_cast<Shared*>(p);
}

void put(char* to, size_t capacity, std::string const& s)
{
    size_t n = std::min(capacity - 1, s.size());
    memcpy(to, s.data(), n);
    to[n] = 0;
}

std::string json(std::string const& s)
{
    std::string r = "\"";
    for(unsigned char ch: s) {
        switch(ch) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\t': r += "\\t"; break;
            default:
                if(ch < 0x20 || ch >= 0x7f) {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", ch);
                    r += b;
                }
                else { r += static_cast<char>(ch); }
        }
    }
    return r + "\"";
}

struct Stats
{
    size_t evaluations{0};
    size_t discards{0};
    std::map<std::string, size_t> labels;
    std::map<std::string, std::string> known;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
};

//! Runs one case; returns true when it held.
bool run_case(Target const& target, Case& c, std::string& message)
{
    try {
        target.property(c);
        return true;
    }
    catch(Failure const& f) {
        message = f.message;
        return false;
    }
    catch(Discard const&) {
        throw;
    }
    catch(std::exception const& e) {
        message = std::string("unexpected exception: ") + e.what();
        return false;
    }
    catch(...) {
        message = "unexpected exception of unknown type";
        return false;
    }
}

std::map<std::string, std::string>* current_known = nullptr;

struct Outcome
{
    bool failed{false};
    bool timeout{false};
    std::string message;
    std::string description;
    std::vector<uint64_t> tape;
};

std::string tail(std::string const& path, size_t n)
{
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)),
        std::istreambuf_iterator<char>());
    // Prefer the sanitizer's or the assertion's own line.
    auto pos = s.find("ERROR: AddressSanitizer");
    if(pos == std::string::npos) { pos = s.find("WARNING: ThreadSanitizer"); }
    if(pos != std::string::npos) { return s.substr(pos, n); }
    return s.size() <= n ? s : s.substr(s.size() - n);
}

void remove_tree(std::string const& path)
{
    DIR* d = opendir(path.c_str());
    if(d) {
        while(auto* e = readdir(d)) {
            std::string name = e->d_name;
            if(name == "." || name == "..") { continue; }
            std::string child = path + "/" + name;
            struct stat st;
            if(lstat(child.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                remove_tree(child);
            }
            else { unlink(child.c_str()); }
        }
        closedir(d);
    }
    rmdir(path.c_str());
}

std::string work_dir;

void enter_scratch(std::string const& name)
{
    scratch = work_dir + "/" + name;
    mkdir(scratch.c_str(), 0700);
    if(chdir(scratch.c_str()) != 0) { perror("chdir"); _exit(3); }
}

void redirect_output(std::string const& path)
{
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if(fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

double case_timeout = 60;

//! Runs a tape in a process of its own, \a times times over.
Outcome run_forked(size_t target_idx, std::vector<uint64_t> const& tape,
    unsigned times, Shared* shm)
{
    Target const& target = targets()[target_idx];
    Outcome out;
    shm->state = 0; shm->length = 0; shm->message[0] = 0;
    shm->description[0] = 0;
    std::string log = work_dir + "/fork.log";
    pid_t pid = fork();
    if(pid == 0) {
        redirect_output(log);
        enter_scratch("fork");
        std::map<std::string, std::string> known;
        current_known = &known;
        for(unsigned i = 0; i < times; ++i) {
            Case c(tape, shm->tape, tape_capacity, &shm->length);
            std::string message;
            bool ok = true;
            try { ok = run_case(target, c, message); }
            catch(Discard const&) {}
            put(shm->description, sizeof shm->description, c.description());
            if(!ok) {
                put(shm->message, sizeof shm->message, message);
                shm->state = 1;
                _exit(0);
            }
        }
        shm->state = 2;
        _exit(0);
    }
    double start = now();
    int status = 0;
    unsigned polls = 0;
    for(;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if(r == pid) { break; }
        if(now() - start > case_timeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            out.failed = out.timeout = true;
            out.message = "case does not end";
            break;
        }
        usleep(polls++ < 100 ? 200 : 2000);
    }
    if(!out.timeout) {
        if(shm->state == 1) {
            out.failed = true;
            out.message = shm->message;
        }
        else if(shm->state != 2) {
            out.failed = true;
            std::ostringstream s;
            if(WIFSIGNALED(status)) {
                s << "crash: signal " << WTERMSIG(status);
            }
            else { s << "crash: exit status " << WEXITSTATUS(status); }
            s << ": " << tail(log, 1500);
            out.message = s.str();
        }
    }
    out.description = shm->description;
    out.tape.assign(shm->tape, shm->tape + std::min(shm->length,
        tape_capacity));
    if(out.timeout) { out.tape = tape; }
    remove_tree(work_dir + "/fork");
    return out;
}

//! Length first, then lexicographic.
bool simpler(std::vector<uint64_t> const& a, std::vector<uint64_t> const& b)
{
    if(a.size() != b.size()) { return a.size() < b.size(); }
    return a < b;
}

Outcome shrink(size_t target_idx, Outcome best, Shared* shm, double seconds)
{
    unsigned times = targets()[target_idx].repeat;
    double end = now() + seconds;
    auto attempt = [&](std::vector<uint64_t> tape) {
        while(!tape.empty() && tape.back() == 0) { tape.pop_back(); }
        if(!simpler(tape, best.tape) || now() > end) { return false; }
        Outcome o = run_forked(target_idx, tape, times, shm);
        if(o.failed && o.timeout == best.timeout) {
            while(!o.tape.empty() && o.tape.back() == 0) { o.tape.pop_back(); }
            if(simpler(tape, o.tape)) { o.tape = tape; }
            best = o;
            return true;
        }
        return false;
    };
    while(!best.tape.empty() && best.tape.back() == 0) {
        best.tape.pop_back();
    }
    bool progress = true;
    while(progress && now() < end) {
        progress = false;
        // Truncate.
        for(size_t keep = 0; keep < best.tape.size();
                keep = keep ? keep * 2 : 1) {
            auto t = best.tape;
            t.resize(keep);
            if(attempt(t)) { progress = true; break; }
        }
        // Delete chunks.
        for(size_t size = std::max<size_t>(best.tape.size() / 2, 1); size > 0;
                size /= 2) {
            for(size_t i = 0; i + size <= best.tape.size() && now() < end;) {
                auto t = best.tape;
                t.erase(t.begin() + i, t.begin() + i + size);
                if(attempt(t)) { progress = true; }
                else { i += size; }
            }
        }
        // Zero chunks.
        for(size_t size = std::max<size_t>(best.tape.size() / 2, 1); size > 0;
                size /= 2) {
            for(size_t i = 0; i + size <= best.tape.size() && now() < end;
                    i += size) {
                auto t = best.tape;
                bool all_zero = true;
                for(size_t j = i; j < i + size; ++j) {
                    if(t[j]) { all_zero = false; }
                    t[j] = 0;
                }
                if(!all_zero && attempt(t)) { progress = true; }
            }
        }
        // Lower single values, also together with deleting what follows.
        for(size_t i = 0; i < best.tape.size() && now() < end; ++i) {
            if(best.tape[i] == 0) { continue; }
            // Lower a count, and drop one block of what follows.
            for(size_t drop = 1; drop <= 4 && i < best.tape.size()
                    && best.tape[i] > 0; ++drop) {
                for(size_t at = i + 1; at + drop <= best.tape.size()
                        && at < i + 24 && now() < end; ++at) {
                    auto t = best.tape;
                    --t[i];
                    t.erase(t.begin() + at, t.begin() + at + drop);
                    if(attempt(t)) { progress = true; break; }
                }
            }
            if(i >= best.tape.size()) { break; }
            uint64_t lo = 0, hi = best.tape[i];
            while(lo < hi && now() < end && i < best.tape.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto t = best.tape;
                t[i] = mid;
                if(attempt(t)) {
                    progress = true;
                    if(i >= best.tape.size()) { break; }
                    hi = best.tape[i];
                }
                else { lo = mid + 1; }
            }
        }
    }
    return best;
}

uint64_t case_seed(uint64_t seed, std::string const& property,
    std::string const& target, size_t idx)
{
    return mix(mix(mix(seed) ^ hash_string(property + "/" + target)) ^ idx);
}

void write_replay(std::string const& path, std::string const& property,
    std::string const& target, Outcome const& o)
{
    std::ofstream f(path);
    f << "{\n \"property\": " << json(property) << ",\n \"target\": "
        << json(target) << ",\n \"message\": " << json(o.message)
        << ",\n \"case\": " << json(o.description) << ",\n \"tape\": [";
    for(size_t i = 0; i < o.tape.size(); ++i) {
        f << (i ? ", " : "") << o.tape[i];
    }
    f << "]\n}\n";
}

bool read_replay(std::string const& path, std::string& target,
    std::vector<uint64_t>& tape)
{
    std::ifstream f(path);
    if(!f) { return false; }
    std::string s((std::istreambuf_iterator<char>(f)),
        std::istreambuf_iterator<char>());
    auto t = s.find("\"target\": \"");
    auto b = s.find("\"tape\": [");
    if(t == std::string::npos || b == std::string::npos) { return false; }
    t += 11;
    target = s.substr(t, s.find('"', t) - t);
    b += 9;
    std::string list = s.substr(b, s.find(']', b) - b);
    std::replace(list.begin(), list.end(), ',', ' ');
    std::istringstream in(list);
    uint64_t v;
    while(in >> v) { tape.push_back(v); }
    return true;
}

} // Anonymous namespace

std::string const& scratch_dir() { return scratch; }

bool add_target(Target const& target)
{
    targets().push_back(target);
    return true;
}

Case::Case(uint64_t seed, uint64_t* tape, size_t capacity, size_t* length)
    : _replay(false), _state(seed), _tape(tape), _capacity(capacity),
      _length(length)
{
    *_length = 0;
}

Case::Case(std::vector<uint64_t> const& given, uint64_t* tape,
        size_t capacity, size_t* length)
    : _replay(true), _given(given), _tape(tape), _capacity(capacity),
      _length(length)
{
    *_length = 0;
}

uint64_t Case::raw()
{
    _state += 0x9e3779b97f4a7c15ull;
    return mix(_state);
}

uint64_t Case::draw(uint64_t n)
{
    uint64_t v;
    if(_replay) { v = *_length < _given.size() ? _given[*_length] : 0; }
    else { v = raw(); }
    if(n != 0) { v %= n; }
    if(*_length >= _capacity) { throw Discard(); }
    _tape[(*_length)++] = v;
    return v;
}

int64_t Case::range(int64_t lo, int64_t hi)
{
    uint64_t n = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(n));
}

bool Case::chance(unsigned num, unsigned den)
{
    return draw(den) >= den - num;
}

size_t Case::weighted(std::initializer_list<unsigned> weights)
{
    uint64_t total = 0;
    for(auto w: weights) { total += w; }
    uint64_t v = draw(total);
    size_t i = 0;
    for(auto w: weights) {
        if(v < w) { return i; }
        v -= w;
        ++i;
    }
    return 0;
}

void Case::label(std::string const& name) { _labels.push_back(name); }

void Case::known(std::string const& id, std::string const& message)
{
    if(!known_ids.count(id)) { fail(message); }
    if(current_known) { (*current_known)[id] = message; }
}

void Case::fail(std::string const& message) { throw Failure{message}; }

uint64_t Case::hash() const
{
    uint64_t h = 1469598103934665603ull;
    for(size_t i = 0; i < *_length; ++i) {
        h = mix(h ^ _tape[i]);
    }
    return h;
}

} // namespace pbt

using namespace pbt;

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
        "handle_abort=0:detect_stack_use_after_return=0";
}

extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0";
}

static int usage()
{
    std::cerr << "driver --property ID --seed N --factor F --limit SECONDS "
        "--work DIR --stats FILE --replay-out FILE [--known ID]... "
        "[--only TARGET]...\n"
        "driver --replay FILE --work DIR [--times N]\ndriver --list\n";
    return 3;
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(uint8_t const* data, size_t size)
{
    static std::vector<uint64_t> buffer(tape_capacity);
    static size_t length = 0;
    static size_t only = [] {
        char const* name = getenv("PBT_TARGET_NAME");
        for(size_t i = 0; name && i < targets().size(); ++i) {
            if(targets()[i].name == name) { return i; }
        }
        return size_t(-1);
    }();
    static bool once = [] {
        char const* w = getenv("PBT_WORK");
        work_dir = w ? w : "/tmp";
        enter_scratch("fuzz" + std::to_string(getpid()));
        return true;
    }();
    (void)once;
    if(size < 2) { return 0; }
    size_t t = only != size_t(-1) ? only : data[0] % targets().size();
    // One draw takes one byte, unless the byte says that eight follow.
    std::vector<uint64_t> tape;
    for(size_t i = 1; i < size;) {
        if(data[i] == 0xff && i + 8 < size) {
            uint64_t v;
            memcpy(&v, data + i + 1, 8);
            tape.push_back(v);
            i += 9;
        }
        else { tape.push_back(data[i++]); }
    }
    Case c(tape, buffer.data(), tape_capacity, &length);
    std::string message;
    bool ok = true;
    try { ok = run_case(targets()[t], c, message); }
    catch(Discard const&) {}
    if(!ok) {
        Outcome o;
        o.message = message;
        o.description = c.description();
        o.tape.assign(buffer.data(), buffer.data() + length);
        char const* out = getenv("PBT_REPLAY_OUT");
        if(out) { write_replay(out, "", targets()[t].name, o); }
        std::cerr << "PBT failure in " << targets()[t].name << ": " << message
            << "\n";
        abort();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    std::string property = "X", stats_path, replay_out, replay_in;
    uint64_t seed = 1;
    double factor = 1, limit = 120;
    unsigned nr_workers = 8, times = 0;
    bool list = false;
    std::set<std::string> only;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string {
            return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--property") { property = next(); }
        else if(a == "--seed") { seed = strtoull(next().c_str(), nullptr, 10); }
        else if(a == "--factor") { factor = atof(next().c_str()); }
        else if(a == "--limit") { limit = atof(next().c_str()); }
        else if(a == "--work") { work_dir = next(); }
        else if(a == "--stats") { stats_path = next(); }
        else if(a == "--replay-out") { replay_out = next(); }
        else if(a == "--replay") { replay_in = next(); }
        else if(a == "--workers") { nr_workers = atoi(next().c_str()); }
        else if(a == "--times") { times = atoi(next().c_str()); }
        else if(a == "--known") { known_ids.insert(next()); }
        else if(a == "--only") { only.insert(next()); }
        else if(a == "--timeout") { case_timeout = atof(next().c_str()); }
        else if(a == "--list") { list = true; }
        else { return usage(); }
    }
    if(list) {
        for(auto const& t: targets()) {
            std::cout << t.name << " " << t.nr_cases << "\n";
        }
        return 0;
    }
    if(work_dir.empty()) { return usage(); }
    mkdir(work_dir.c_str(), 0700);
    Shared* fork_shm = make_shared_block();

    if(!replay_in.empty()) {
        std::string name;
        std::vector<uint64_t> tape;
        if(!read_replay(replay_in, name, tape)) { return usage(); }
        for(size_t t = 0; t < targets().size(); ++t) {
            if(targets()[t].name != name) { continue; }
            unsigned n = times ? times : targets()[t].repeat;
            Outcome o = run_forked(t, tape, n, fork_shm);
            std::cout << "case: " << o.description << "\n";
            if(o.failed) {
                std::cout << "FAILS: " << o.message << "\n";
                return 1;
            }
            std::cout << "holds\n";
            return 0;
        }
        std::cerr << "no such target: " << name << "\n";
        return 3;
    }

    double start = now();
    std::vector<Shared*> shms;
    std::vector<pid_t> pids;
    // Round robin over the targets in small batches, so that a time limit
    // cuts all targets alike.
    size_t const nr_rounds = 20;
    auto nr_cases = [&](size_t t) {
        return std::max<size_t>(1, static_cast<size_t>(
            targets()[t].nr_cases * factor));
    };
    for(unsigned w = 0; w < nr_workers; ++w) {
        shms.push_back(make_shared_block());
        pid_t pid = fork();
        if(pid == 0) {
            Shared* shm = shms[w];
            redirect_output(work_dir + "/w" + std::to_string(w) + ".log");
            enter_scratch("w" + std::to_string(w));
            std::vector<Stats> stats(targets().size());
            bool stop = false;
            for(size_t round = 0; round < nr_rounds && !stop; ++round) {
                for(size_t t = 0; t < targets().size() && !stop; ++t) {
                    Target const& target = targets()[t];
                    if(!only.empty() && !only.count(target.name)) { continue; }
                    size_t n = nr_cases(t);
                    size_t first = n * round / nr_rounds;
                    size_t last = n * (round + 1) / nr_rounds;
                    current_known = &stats[t].known;
                    for(size_t i = first; i < last; ++i) {
                        if(i % nr_workers != w) { continue; }
                        double at = now();
                        if(at - start > limit) { stop = true; break; }
                        shm->target = t;
                        shm->case_idx = i;
                        shm->started = at;
                        Case c(case_seed(seed, property, target.name, i),
                            shm->tape, tape_capacity, &shm->length);
                        std::string message;
                        bool ok = true;
                        try { ok = run_case(target, c, message); }
                        catch(Discard const&) {
                            ++stats[t].discards;
                            continue;
                        }
                        ++stats[t].evaluations;
                        if(!ok) {
                            put(shm->message, sizeof shm->message, message);
                            put(shm->description, sizeof shm->description,
                                c.description());
                            shm->state = 1;
                            _exit(0);
                        }
                        std::set<std::string> seen(c.labels().begin(),
                            c.labels().end());
                        for(auto const& l: seen) { ++stats[t].labels[l]; }
                        if(c.is_nontrivial()) {
                            stats[t].hashes.push_back(c.hash());
                            if(stats[t].samples.size() < 2) {
                                stats[t].samples.push_back(
                                    c.description().substr(0, 600));
                            }
                        }
                    }
                }
            }
            shm->started = 0;
            std::ofstream f(work_dir + "/w" + std::to_string(w) + ".stats",
                std::ios::binary);
            auto num = [&](uint64_t v) {
                f.write(reinterpret_cast<char const*>(&v), 8); };
            auto str = [&](std::string const& s) {
                num(s.size()); f.write(s.data(), s.size()); };
            for(auto const& s: stats) {
                num(s.evaluations); num(s.discards);
                num(s.labels.size());
                for(auto const& l: s.labels) { str(l.first); num(l.second); }
                num(s.known.size());
                for(auto const& l: s.known) { str(l.first); str(l.second); }
                num(s.hashes.size());
                for(auto h: s.hashes) { num(h); }
                num(s.samples.size());
                for(auto const& x: s.samples) { str(x); }
            }
            f.close();
            shm->state = 2;
            _exit(0);
        }
        pids.push_back(pid);
    }

    // Wait for the workers; the first failure stops all.
    std::vector<bool> alive(nr_workers, true);
    unsigned nr_alive = nr_workers;
    int failed_worker = -1;
    bool worker_timeout = false;
    std::string crash_message;
    auto kill_all = [&] {
        for(unsigned w = 0; w < nr_workers; ++w) {
            if(alive[w]) {
                kill(pids[w], SIGKILL);
                int st;
                waitpid(pids[w], &st, 0);
                alive[w] = false;
            }
        }
    };
    bool infrastructure = false;
    while(nr_alive && failed_worker < 0) {
        for(unsigned w = 0; w < nr_workers && failed_worker < 0; ++w) {
            if(!alive[w]) { continue; }
            int status = 0;
            pid_t r = waitpid(pids[w], &status, WNOHANG);
            if(r == pids[w]) {
                alive[w] = false;
                --nr_alive;
                if(shms[w]->state == 2) { continue; }
                if(shms[w]->state != 1 && WIFSIGNALED(status) &&
                        WTERMSIG(status) == SIGKILL) {
                    infrastructure = true;
                    continue;
                }
                failed_worker = static_cast<int>(w);
                if(shms[w]->state != 1) {
                    std::ostringstream s;
                    if(WIFSIGNALED(status)) {
                        s << "crash: signal " << WTERMSIG(status);
                    }
                    else {
                        s << "crash: exit status " << WEXITSTATUS(status);
                    }
                    s << ": " << tail(work_dir + "/w" + std::to_string(w)
                        + ".log", 1500);
                    crash_message = s.str();
                }
            }
            else if(shms[w]->started > 0 &&
                    now() - shms[w]->started > case_timeout) {
                failed_worker = static_cast<int>(w);
                worker_timeout = true;
                crash_message = "case does not end";
            }
        }
        usleep(5000);
    }

    int result = 0;
    Outcome failure;
    std::string failed_target;
    if(failed_worker >= 0) {
        kill_all();
        Shared* shm = shms[failed_worker];
        failure.failed = true;
        failure.timeout = worker_timeout;
        failure.message = shm->state == 1 ? std::string(shm->message)
            : crash_message;
        failure.description = shm->description;
        failure.tape.assign(shm->tape, shm->tape + std::min(shm->length,
            tape_capacity));
        size_t t = shm->target;
        failed_target = targets()[t].name;
        result = 1;
        std::cout << "failure in " << failed_target << ", case "
            << shm->case_idx << ": " << failure.message << "\n" << std::flush;
        Outcome again = run_forked(t, failure.tape, targets()[t].repeat,
            fork_shm);
        if(again.failed) {
            failure = again;
            if(!again.timeout) {
                failure = shrink(t, again, fork_shm, 60);
            }
        }
        else if(worker_timeout) {
            // Not reproducible: a slow machine, not a hang.
            std::cout << "time-out is not reproducible; ignored\n";
            result = 4;
        }
        else {
            for(int i = 0; i < 20 && !again.failed; ++i) {
                again = run_forked(t, failure.tape,
                    std::max(10u, targets()[t].repeat), fork_shm);
            }
            std::cout << (again.failed ? "reproduced in a rerun\n"
                : "depends on the schedule or on earlier cases\n");
        }
        if(result == 1) {
            write_replay(replay_out, property, failed_target, failure);
            std::cout << "shrunk to " << failure.tape.size() << " draws: "
                << failure.description << "\n" << failure.message << "\n";
        }
    }
    else if(infrastructure) {
        std::cerr << "a worker was killed\n";
        result = 4;
    }

    // Merge the statistics.
    std::vector<Stats> total(targets().size());
    for(unsigned w = 0; w < nr_workers; ++w) {
        std::ifstream f(work_dir + "/w" + std::to_string(w) + ".stats",
            std::ios::binary);
        if(!f) { continue; }
        auto num = [&] {
            uint64_t v = 0;
            f.read(reinterpret_cast<char*>(&v), 8);
            return v; };
        auto str = [&] {
            std::string s(num(), ' ');
            f.read(&s[0], s.size());
            return s; };
        for(auto& s: total) {
            s.evaluations += num();
            s.discards += num();
            for(auto n = num(); n > 0; --n) {
                auto l = str(); s.labels[l] += num(); }
            for(auto n = num(); n > 0; --n) {
                auto k = str(); s.known[k] = str(); }
            for(auto n = num(); n > 0; --n) { s.hashes.push_back(num()); }
            for(auto n = num(); n > 0; --n) { s.samples.push_back(str()); }
        }
    }
    std::ofstream f(stats_path);
    f << "{\"wall_s\": " << now() - start << ", \"targets\": [";
    bool first = true;
    for(size_t t = 0; t < targets().size(); ++t) {
        auto& s = total[t];
        if(!only.empty() && !only.count(targets()[t].name)) { continue; }
        std::unordered_set<uint64_t> distinct(s.hashes.begin(),
            s.hashes.end());
        f << (first ? "\n" : ",\n") << " {\"name\": " << json(targets()[t].name)
            << ", \"rule\": " << json(targets()[t].rule)
            << ", \"wanted\": " << nr_cases(t)
            << ", \"evaluations\": " << s.evaluations
            << ", \"discards\": " << s.discards
            << ", \"distinct_nontrivial\": " << distinct.size()
            << ", \"labels\": {";
        first = false;
        bool fl = true;
        for(auto const& l: s.labels) {
            f << (fl ? "" : ", ") << json(l.first) << ": " << l.second;
            fl = false;
        }
        f << "}, \"known\": {";
        fl = true;
        for(auto const& l: s.known) {
            f << (fl ? "" : ", ") << json(l.first) << ": " << json(l.second);
            fl = false;
        }
        f << "}, \"samples\": [";
        fl = true;
        for(size_t i = 0; i < std::min<size_t>(3, s.samples.size()); ++i) {
            f << (fl ? "" : ", ") << json(s.samples[i]);
            fl = false;
        }
        f << "]}";
    }
    f << "]}\n";
    f.close();
    for(unsigned w = 0; w < nr_workers; ++w) {
        remove_tree(work_dir + "/w" + std::to_string(w));
    }
    return result;
}
#endif
