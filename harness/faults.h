// Damaged files, and files that cannot be written to the end.
#pragma once
#include "models.h"

static void each_damage(Case &c, const std::string &full, bool fitable, const std::function<std::string(const std::string &)> &load) {
    Rng &r = c.rng;
    std::string f = scratch("damaged.json");
    EXPECT(c, load(scratch("no_such_file.json"))[0] == '!', "missing", "a missing file was loaded");
    size_t end = full.size();
    while (end > 0 && isspace(static_cast<unsigned char>(full[end - 1]))) end--;
    size_t step = full.size() > 6000 ? full.size() / 3000 : 1;
    for (size_t b = 0; b < end; b += 1 + (step > 1 ? r.range(0, 2 * step) : 0)) {
        write_file(f, full.substr(0, b));
        EXPECT(c, load(f)[0] == '!', "truncated", "a file cut off at byte " << b << " of " << full.size() << " was loaded");
        c.n["cut_offs"]++;
    }
    json doc = json::parse(full);
    std::vector<json> wrong = {json("7"), json::object(), json(nullptr), json::array()};
    auto refuse = [&](const json &d, const std::string &what) {
        write_file(f, d.dump(2));
        EXPECT(c, load(f)[0] == '!', "field", "a file with " << what << " was loaded");
        c.n["field_damages"]++;
    };
    std::vector<std::string> keys = {"size", "min_prob"};
    for (const char *k : {"alphabet", "coder"}) { json d = doc; d.erase(k); refuse(d, std::string("no ") + k); }
    if (fitable) { keys.push_back("fitted"); keys.push_back("freqs_computed"); }
    for (auto &k : keys) {
        json d = doc;
        d.erase(k);
        refuse(d, "no " + k);
        for (auto &w : wrong) { d = doc; d[k] = w; refuse(d, k + " = " + w.dump()); }
        if (k == "fitted" || k == "freqs_computed") { d = doc; d[k] = 1; refuse(d, k + " = 1"); }
    }
    if (doc["alphabet"].is_array()) {
        size_t n = doc["alphabet"].size();
        for (size_t i = 0; i < n; i += n > 8 ? r.range(1, n / 4) : 1) {
            for (const char *k : {"vec", "freq"}) {
                json d = doc;
                d["alphabet"][i].erase(k);
                refuse(d, std::string("an entry without ") + k);
                for (auto &w : wrong) {
                    if (std::string(k) == "vec" && w.is_array()) continue;
                    d = doc;
                    d["alphabet"][i][k] = w;
                    refuse(d, std::string("an entry with ") + k + " = " + w.dump());
                }
            }
            json d = doc;
            d["alphabet"][i]["vec"][0] = "x";
            refuse(d, "text in a sequence");
        }
    }
    write_file(f, full);
    EXPECT(c, load(f) == "loaded", "intact", "the intact file was not loaded: " << load(f));
}

struct FileLimit {
    struct rlimit old;
    explicit FileLimit(size_t bytes) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        struct rlimit n = old;
        n.rlim_cur = bytes;
        setrlimit(RLIMIT_FSIZE, &n);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static void each_write_fault(Case &c, const std::string &full, const std::function<void(const std::string &)> &save,
                             const std::function<std::string(const std::string &)> &load) {
    Rng &r = c.rng;
    std::string f = scratch("limited.json");
    size_t step = full.size() > 3000 ? full.size() / 1500 : 1;
    for (size_t b = 0; b < full.size(); b += 1 + (step > 1 ? r.range(0, 2 * step) : 0)) {
        unlink(f.c_str());
        bool threw = false;
        {
            FileLimit limit(b);
            try { save(f); } catch (const std::exception &) { threw = true; }
        }
        std::string got = read_file(f);
        EXPECT(c, threw || got == full, "silent", "saving stopped at byte " << b << " of " << full.size() << " without an error");
        if (got != full && b + 1 < full.size()) EXPECT(c, load(f)[0] == '!', "partial-loaded", "the part of a file written up to byte " << b << " was loaded");
        c.n["write_faults"]++;
    }
    for (auto bad : {std::string("/no/such/dir/x.json"), g_scratch, g_scratch + "/none/x.json"}) {
        bool threw = false;
        try { save(bad); } catch (const std::exception &) { threw = true; }
        EXPECT(c, threw, "silent", "saving to " << bad << " raised nothing");
        c.n["unwritable_paths"]++;
    }
    unlink(f.c_str());
    save(f);
    EXPECT(c, read_file(f) == full, "after", "after failed saves the model saves something else");
    EXPECT(c, load(f) == "loaded", "after", "after failed saves the saved model does not load");
    // an older, longer file is replaced completely
    write_file(f, full + full);
    save(f);
    EXPECT(c, read_file(f) == full, "replace", "saving over a longer file left something of it");
}
