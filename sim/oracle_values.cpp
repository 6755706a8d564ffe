// C02: what the controls show
#include "oracle.h"
#include <algorithm>

namespace oracle
{
    static bool ReadWords(const Ctx&, const Frame& f, const Reg& r, std::vector<int>& w)
    {
        if (f.exc || SpaceOf(f.fn) != r.space || f.addr > r.addr || f.addr + f.count < r.addr + r.words)
            return false;
        size_t at = Ports[f.port]->kind == "mtcp" ? 2 : 3;
        w.resize(r.words);
        for (int i = 0; i < r.words; ++i) {
            int k = r.addr + i - f.addr;
            if (r.IsBit()) {
                if (at + k / 8 >= f.rsp.size())
                    return false;
                w[i] = f.rsp[at + k / 8] >> (k % 8) & 1;
            } else {
                if (at + k * 2 + 1 >= f.rsp.size())
                    return false;
                w[i] = f.rsp[at + k * 2] << 8 | f.rsp[at + k * 2 + 1];
            }
        }
        return true;
    }
    std::vector<std::vector<std::vector<Src>>> Sources(const Ctx& c)
    {
        std::vector<std::vector<std::vector<Src>>> res(c.chans.size());
        // registers by slave
        std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> by;
        for (size_t i = 0; i < c.chans.size(); ++i) {
            res[i].resize(c.chans[i].regs.size());
            for (size_t k = 0; k < c.chans[i].regs.size(); ++k)
                by[{c.chans[i].regs[k].port, c.chans[i].regs[k].slave}].push_back({(int)i, (int)k});
        }
        for (auto& f: H.frames) {
            if (!f.crcOk || f.slave < 0 || f.rsp.empty())
                continue;
            bool read = IsRead(f), write = IsWrite(f);
            if (!read && !write)
                continue;
            if (!f.replied && f.fate != "late" && f.fate != "unheard" && f.fate != "destroyed")
                continue;
            bool intact = Intact(c, f);
            ns_t lat = Ports[f.port]->latency;
            for (auto& p: by[{f.port, f.slave}]) {
                auto& r = c.chans[p.first].regs[p.second];
                auto& dst = res[p.first][p.second];
                std::vector<int> w;
                if (read && ReadWords(c, f, r, w)) {
                    bool edge = f.addr == r.addr || f.addr + f.count == r.addr + r.words;
                    // registers inside a range may be there only because of their neighbours
                    dst.push_back({f.rsp1 + lat, intact && edge, w, f.id});
                } else if (write && f.exc == 0) {
                    auto ww = WrittenWords(f);
                    if (ww.empty() || ww[0].space != r.space)
                        continue;
                    // a register written word by word is complete when its last word is
                    bool touches = f.addr < r.WAddr() + r.words && f.addr + (int)ww.size() > r.WAddr();
                    if (!touches)
                        continue;
                    bool whole = f.addr == r.WAddr() && (int)ww.size() == r.words;
                    w.resize(r.words);
                    for (int i = 0; i < r.words; ++i) {
                        int k = r.WAddr() + i - f.addr;
                        w[i] = k >= 0 && k < (int)ww.size() ? ww[k].val : c.MemAt(r.port, r.slave, r.space, r.WAddr() + i, std::max(f.t1 + sim::MS, f.rsp0));
                    }
                    dst.push_back({f.rsp1 + lat, intact && whole && !r.wo, w, f.id});
                    if (whole)
                        continue;
                    // the daemon takes what was commanded as the new value although the device may have changed other words meanwhile
                    for (auto& o: H.ops) {
                        auto& op = c.plan["ops"][o.idx];
                        if (op["k"].asString() != "on" || op["chan"].asInt() != p.first || !o.accepted || op["bad"].asBool() || o.t > f.t0)
                            continue;
                        auto cw = OpWords(r, op["regs"][p.second]);
                        bool same = true;
                        for (int i = 0; i < r.words; ++i) {
                            int k = r.WAddr() + i - f.addr, m = MaskOf(r, i);
                            same &= k < 0 || k >= (int)ww.size() || (cw[i] & m) == (ww[k].val & m);
                        }
                        if (same)
                            dst.push_back({f.rsp1 + lat, false, cw, f.id});
                    }
                }
            }
        }
        // events
        for (auto& e: H.events) {
            if (e.reboot)
                continue;
            auto& f = H.frames[e.frame];
            if (!f.replied && f.fate != "late" && f.fate != "unheard" && f.fate != "destroyed")
                continue;
            for (auto& p: by[{e.port, e.slave}]) {
                auto& r = c.chans[p.first].regs[p.second];
                if (r.space != e.type - 1 || r.addr != e.id || !(c.chans[p.first].sporadic || c.chans[p.first].semi))
                    continue;
                std::vector<int> w{(int)(e.val & 0xFFFF)};
                if (r.words == 2)
                    w = {(int)(e.val >> 16 & 0xFFFF), (int)(e.val & 0xFFFF)};
                res[p.first][p.second].push_back({f.rsp1 + Ports[f.port]->latency, Intact(c, f), w, f.id});
            }
        }
        for (auto& a: res)
            for (auto& b: a)
                std::stable_sort(b.begin(), b.end(), [](const Src& x, const Src& y) { return x.t < y.t; });
        return res;
    }
    std::vector<std::vector<Shown>> ShownStates(const Ctx& c)
    {
        std::map<std::pair<std::string, std::string>, int> ix;
        for (size_t i = 0; i < c.chans.size(); ++i)
            ix[{c.chans[i].dev, c.chans[i].ctl}] = (int)i;
        std::vector<std::vector<Shown>> res(c.chans.size());
        for (auto& p: H.pubs) {
            if (p.what != 'v' && p.what != 'e')
                continue;
            auto i = ix.find({p.dev, p.ctl});
            if (i == ix.end())
                continue;
            auto& v = res[i->second];
            Shown s{p.t, p.val, p.err, p.what};
            if (p.what == 'e')
                s.val = v.empty() ? std::string() : v.back().val;
            v.push_back(s);
        }
        return res;
    }
    static bool IsErrValue(const Reg& r, const std::vector<int>& w)
    {
        return r.hasErr && RawOf(r, w) == r.err;
    }
    bool PartMatches(const Chan& c, const Reg& r, const std::vector<int>& w, const std::string& text)
    {
        if (c.regs.size() == 1 && !r.IsStr()) {
            auto raw = std::to_string(RawOf(r, w));
            if (!c.onv.empty() && raw == c.onv)
                return text == "1";
            if (!c.offv.empty() && raw == c.offv)
                return text == "0";
        }
        return SameText(r, w, text);
    }
    void Values(Ctx& c)
    {
        auto src = Sources(c);
        auto shown = ShownStates(c);
        ns_t slack = 150 * sim::MS + c.StallSlack();
        for (size_t ci = 0; ci < c.chans.size(); ++ci) {
            auto& ch = c.chans[ci];
            if (ch.regs[0].wo)
                continue;
            // of two controls of one register an answer updates the one it was asked for
            bool twice = false;
            for (size_t k = 0; k < c.chans.size(); ++k)
                for (auto& r: c.chans[k].regs)
                    twice |= k != ci && (ch.sporadic || ch.semi) && r.port == ch.regs[0].port && r.slave == ch.regs[0].slave && r.space == ch.regs[0].space && r.addr == ch.regs[0].addr;
            if (twice)
                continue;
            std::string nm = ch.dev + "/" + ch.ctl;
            auto check = [&](ns_t t, const std::string& val, const std::string& err, bool isV, const char* when) {
                std::vector<std::string> parts;
                if (ch.regs.size() == 1)
                    parts.push_back(val);
                else {
                    size_t b = 0;
                    while (true) {
                        size_t e = val.find(';', b);
                        parts.push_back(val.substr(b, e == std::string::npos ? e : e - b));
                        if (e == std::string::npos)
                            break;
                        b = e + 1;
                    }
                    if (parts.size() != ch.regs.size()) {
                        c.Add("wrong_value", "control " + nm + " shows \"" + val + "\" at " + c.Ms(t) + ": wrong number of parts");
                        return;
                    }
                }
                ++H.probes["judged"];
                for (size_t k = 0; k < ch.regs.size(); ++k) {
                    auto& r = ch.regs[k];
                    auto& ss = src[ci][k];
                    // sources known at t, back to the last one that cannot have been missed
                    int hi = -1;
                    for (size_t i = 0; i < ss.size() && ss[i].t <= t; ++i)
                        hi = (int)i;
                    bool ok = false, err2 = false, any = false;
                    std::string exp;
                    for (int i = hi; i >= 0; --i) {
                        any = true;
                        if (IsErrValue(r, ss[i].words)) {
                            err2 = true;
                            if (err.find('r') != std::string::npos)
                                ok = true;
                        } else if (PartMatches(ch, r, ss[i].words, parts[k]))
                            ok = true;
                        else if (exp.empty())
                            exp = Text(r, ss[i].words) + " (request #" + std::to_string(ss[i].frame) + " answered at " + c.Ms(ss[i].t) + ")";
                        if (ok)
                            break;
                        if (ss[i].sure && ss[i].t + slack <= t)
                            break;
                    }
                    if (!any)
                        c.Add("value_from_nowhere", "control " + nm + " shows \"" + parts[k] + "\" at " + c.Ms(t) + " although its register has never been read");
                    else if (!ok)
                        c.Add(isV ? "wrong_value" : "stale_value",
                              "control " + nm + " " + when + " \"" + parts[k] + "\" (error \"" + err + "\") at " + c.Ms(t) + ", the device said " +
                                  (exp.empty() && err2 ? "its error value" : exp));
                }
            };
            auto& sh = shown[ci];
            for (auto& s: sh)
                if (s.what == 'v' || (s.err.empty() && !s.val.empty()))
                    check(s.t, s.val, s.err, s.what == 'v', s.what == 'v' ? "was published as" : "is declared good as");
            // every answer has to become visible
            for (size_t k = 0; k < ch.regs.size(); ++k)
                for (auto& s: src[ci][k]) {
                    if (!s.sure)
                        continue;
                    ns_t t = s.t + slack;
                    if (H.tTerm && t > H.tTerm)
                        break;
                    const Shown* cur = nullptr;
                    for (auto& x: sh)
                        if (x.t <= t)
                            cur = &x;
                    if (!cur || cur->err.find_first_of("rw") != std::string::npos)
                        continue;
                    if (cur->what == 'e' && cur->val.empty() && cur->err.empty())
                        continue;
                    check(t, cur->val, cur->err, false, "still shows");
                }
        }
        Converged(c);
    }
    void Converged(Ctx& c)
    {
        if (c.out.end != "ok")
            return;
        auto shown = ShownStates(c);
        // at the quiet end everything that works has its value
        for (size_t ci = 0; ci < c.chans.size(); ++ci) {
            auto& ch = c.chans[ci];
            if (ch.regs[0].wo)
                continue;
            bool able = true;
            for (auto& r: ch.regs) {
                auto& s = *Ports[r.port]->slaves[r.slave];
                able &= s.up && !s.mute;
                for (auto& b: H.boots) // in the boot loader everything looks unavailable
                    able &= b.port != r.port || b.slave != r.slave;
                able &= !s.boot["startInBoot"].asBool();
                std::vector<int> w;
                able &= c.WordsAt(r, H.tTerm, w) && !IsErrValue(r, w) && !(r.type == "press_counter" && w[0] == 0); // a zero is not shown after the device was lost
                for (int i = 0; i < r.words; ++i)
                    able &= !s.excRead.count({r.space, r.addr + i});
            }
            if (!able)
                continue;
            auto& sh = shown[ci];
            std::string nm = ch.dev + "/" + ch.ctl;
            ++H.probes["judged"];
            if (!sh.empty() && sh.back().val.empty() && sh.back().err.find('w') != std::string::npos)
                continue; // shows nothing but the failure of a command
            if (sh.empty() || (sh.back().what == 'e' && sh.back().val.empty())) {
                c.Add("never_published", "control " + nm + " has no value at " + c.Ms(H.tTerm) + " although its device answers");
                continue;
            }
            // a range with a hole the device does not have is tried once, when registers first happen to be read together
            bool hole = false;
            for (auto& r: ch.regs)
                for (size_t i = H.frames.size(); i-- > 0;) {
                    auto& f = H.frames[i];
                    if (f.port != r.port || f.slave != r.slave || !IsRead(f) || SpaceOf(f.fn) != r.space || f.addr >= r.addr + r.words ||
                        f.addr + f.count <= r.addr)
                        continue;
                    hole |= f.exc && f.t0 > H.tTerm - std::max(10, ch.rateLimit * 2 / 1000) * sim::SEC;
                    break;
                }
            if (hole)
                continue;
            if (sh.back().err.find('r') != std::string::npos)
                c.Add("stuck_error", "control " + nm + " still shows a read error at " + c.Ms(H.tTerm) + " although nothing has been wrong since " +
                                         c.Ms(H.tActiveEnd));
            if (sh.back().err.empty()) {
                // nothing changed for the last part of the quiet time
                for (size_t k = 0; k < ch.regs.size() && ch.regs.size() == 1; ++k) {
                    std::vector<int> w;
                    c.WordsAt(ch.regs[k], H.tTerm, w);
                    if (!PartMatches(ch, ch.regs[k], w, sh.back().val))
                        c.Add("not_converged", "control " + nm + " shows \"" + sh.back().val + "\" at the end, the device holds " + Text(ch.regs[k], w));
                }
            }
        }
    }
}
