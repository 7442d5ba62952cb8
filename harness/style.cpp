// Histories of text_style values.
#include "hist.hpp"
#include <papilio/color.hpp>
using namespace hist;
using papilio::text_style;

static papilio::style attr(long long k) { return k ? static_cast<papilio::style>(1 << (k - 1)) : papilio::style::none; }
static papilio::color col(long long c) { return static_cast<papilio::color>(c ? 29 + c : 0); }

static std::string observe(const text_style& s)
{
    std::string t, r, m = "[";
    s.set(std::back_inserter(t));
    s.reset(std::back_inserter(r));
    for(int k = 1; k < 16; ++k) m += (k > 1 ? "," : "") + std::to_string(int(s.has_style(static_cast<papilio::style>(k))));
    std::string q = "[" + std::to_string(int(s.has_foreground())) + "," + std::to_string(int(s.has_background())) + "," + std::to_string(int(s.has_style()));
    for(int k = 1; k <= 4; ++k) q += "," + std::to_string(int(s.has_style(attr(k))));
    char c = 'A';
    std::string v = papilio::format("{:>2}", papilio::styled(s, c)) + papilio::format("{:#x}", papilio::styled(s, 255));
    return "{\"q\":" + q + "],\"t\":" + mini::units(t) + ",\"r\":" + mini::units(r) + ",\"m\":" + m + "],\"v\":" + mini::units(v) + "}";
}

// every style of the file: how it is made of its parts, and combined
static text_style made(const J& d, int how)
{
    // d = [[b1..b4], f, g]
    text_style r;
    auto parts = [&](auto&& f) {
        for(int q = 0; q < 6; ++q)
        {
            int i = (q * (how & 1 ? 5 : 1) + how) % 6;
            if(i < 4) { if(d[0][i].n) f(text_style(attr(i + 1)), attr(i + 1), true); }
            else if(i == 4) f(papilio::fg(col(d[1].n)), papilio::style::none, false);
            else f(papilio::bg(col(d[2].n)), papilio::style::none, false);
        }
    };
    int n = 0;
    parts([&](text_style t, papilio::style a, bool is) {
        switch((how + n++) % 4)
        {
        case 0: r |= t; break;
        case 1: r = r | t; break;
        case 2: r = t | r; break;
        default: if(is) r |= a; else r |= t;
        }
    });
    return r;
}

static std::string run(const J& j)
{
    if(j.has("z")) // one combination of two styles
    {
        int how = j["how"].i();
        text_style a = made(j["x"], how), b = made(j["z"], how + 1);
        text_style r = how % 3 == 0 ? a | b : how % 3 == 1 ? b | a : a;
        if(how % 3 == 2) r |= b;
        return observe(r);
    }
    text_style s[3];
    std::string out = "[";
    for(auto& op : j["ops"].a)
    {
        const std::string& o = op[0].s;
        auto& a = s[op[1].n - 1];
        auto slot = [&](int k) -> text_style& { return s[op[k].n - 1]; };
        auto clash = [](const text_style& x, const text_style& y) { return (x.has_foreground() && y.has_foreground()) || (x.has_background() && y.has_background()); };
        bool x = false;
        if(o == "new") a = text_style(attr(op[2].n));
        else if(o == "fg") a = papilio::fg(col(op[2].n));
        else if(o == "bg") a = papilio::bg(col(op[2].n));
        else if(o == "cp") a = text_style(slot(2));
        else if(o == "ors") a |= attr(op[2].n);
        else if(o == "ort") { if(clash(a, slot(2))) x = true; else a |= slot(2); }
        else if(o == "bs") a = slot(2) | attr(op[3].n);
        else if(o == "bt") { if(clash(slot(2), slot(3))) x = true; else a = slot(2) | slot(3); }
        out += (out.size() > 1 ? "," : "") + std::string("{\"x\":") + (x ? "1" : "0") + ",\"s\":[" + observe(s[0]) + "," + observe(s[1]) + "," + observe(s[2]) + "]}";
    }
    return out + "]";
}
int main(int argc, char** argv) { return mini::run_cases(argc, argv, run); }
