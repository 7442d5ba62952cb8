#pragma once
#include "values.hpp"
#include <papilio/xchar.hpp>

// Runs one script in steps, or looks up the field at its start.
template <typename CharT, bool Debug>
std::string run_steps(const mini::J& j)
{
    using B = val::builder<CharT>;
    using context = typename B::context;
    using intp_t = papilio::basic_interpreter<context, Debug>;
    using parse_t = papilio::basic_format_parse_context<context>;
    B b;
    const mini::J& A = j["A"];
    papilio::basic_dynamic_format_args<context, CharT> args;
    std::vector<typename B::arg_t> made;
    std::vector<std::unique_ptr<const typename B::arg_t>> named;
    for(auto& v : A["pos"].a) made.push_back(b.make(v));
    for(auto& v : made) args.emplace(v);
    for(auto& n : A["nam"].a)
    {
        auto& name = b.mem.own(mini::text<CharT>(n["n"]));
        named.push_back(std::make_unique<const typename B::arg_t>(b.make(n["v"])));
        args.emplace(papilio::arg(std::basic_string_view<CharT>(name), *named.back()));
    }
    std::basic_string<CharT> s0 = mini::text<CharT>(j["s"]);
    std::unique_ptr<CharT[]> buf(new CharT[s0.size() ? s0.size() : 1]);
    std::copy(s0.begin(), s0.end(), buf.get());
    std::basic_string_view<CharT> script(buf.get(), s0.size());
    auto offset = [&](const auto& it) { return std::to_string(it.base() - script.begin()); };

    if(j["calls"].size() == 0)
    {
        std::string p = "0";
        try
        {
            parse_t pc(script, args);
            auto [arg, it] = intp_t::access(pc);
            p = offset(it);
            std::string e;
            std::basic_string<CharT> out;
            try
            {
                papilio::basic_dynamic_format_args<context, CharT> one;
                one.emplace(arg);
                const CharT f[2] = {CharT('{'), CharT('}')};
                out = papilio::vformat(std::basic_string_view<CharT>(f, 2), one);
            }
            catch(...) { e = mini::error_name(); out.clear(); }
            return "{\"ok\":1,\"e\":\"" + e + "\",\"p\":" + p + ",\"o\":" + mini::units(out) + "}";
        }
        catch(...) { return "{\"ok\":0,\"e\":\"" + mini::error_name() + "\",\"p\":0,\"o\":[]}"; }
    }

    std::basic_string<CharT> out;
    std::string at, e, ep = "-1";
    parse_t pc(script, args);
    context fc(std::back_inserter(out), args);
    intp_t intp;
    using ic_t = typename intp_t::interpreter_context;
    auto ic = std::make_unique<ic_t>(intp.create_context(pc, fc));
    const long long how = j["how"].n;
    std::size_t i = 0;
    try
    {
        for(auto& c : j["calls"].a)
        {
            const auto n = static_cast<std::size_t>(c.n);
            long long did = 0;
            switch((how + static_cast<long long>(i)) % 4)
            {
            case 0: did = static_cast<long long>(intp.run_n(*ic, n)); break;
            case 1:
                while(static_cast<std::size_t>(did) < n && !ic->input_at_end()) { intp.run_once(*ic); ++did; }
                break;
            case 2:
            {
                std::size_t asked = 0;
                did = static_cast<long long>(intp.run_if(*ic, [&]() { return asked++ < n; }));
                break;
            }
            default:
                if(n >= 9999) { intp.run(*ic); did = -1; }
                else did = static_cast<long long>(intp.run_n(*ic, n));
            }
            ++i;
            at += (at.empty() ? "" : ",") + ("{\"n\":" + std::to_string(did)) + ",\"p\":" + offset(ic->input()) + ",\"o\":" + mini::units(out) + "}";
            if(how & 4) // go on with a copy
                ic = std::make_unique<ic_t>(std::as_const(*ic));
        }
    }
    catch(const typename intp_t::extended_error& x)
    {
        e = mini::error_name();
        if constexpr(Debug) ep = offset(x.get_iter());
    }
    catch(...) { e = mini::error_name(); }
    return "{\"ok\":" + std::string(e.empty() ? "1" : "0") + ",\"e\":\"" + e + "\",\"ep\":" + ep + ",\"at\":[" + at + "]}";
}
