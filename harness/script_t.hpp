#pragma once
#include "values.hpp"
#include <papilio/xchar.hpp>

// Formats one script through the type-erased interface.
template <typename CharT>
std::string run_script(const mini::J& j)
{
    using B = val::builder<CharT>;
    using context = typename B::context;
    B b;
    const mini::J& A = j["A"];
    papilio::basic_dynamic_format_args<context, CharT> args;
    std::vector<typename B::arg_t> made; // arguments exist before they are added
    std::vector<std::unique_ptr<const typename B::arg_t>> named;
    for(auto& v : A["pos"].a) made.push_back(b.make(v));
    for(auto& v : made) args.emplace(v);
    for(auto& n : A["nam"].a)
    {
        auto& name = b.mem.own(mini::text<CharT>(n["n"]));
        named.push_back(std::make_unique<const typename B::arg_t>(b.make(n["v"])));
        args.emplace(papilio::arg(std::basic_string_view<CharT>(name), *named.back()));
    }
    // the script is given without anything readable after its end
    std::basic_string<CharT> s0 = mini::text<CharT>(j["s"]);
    std::unique_ptr<CharT[]> buf(new CharT[s0.size() ? s0.size() : 1]);
    std::copy(s0.begin(), s0.end(), buf.get());
    std::basic_string_view<CharT> script(buf.get(), s0.size());
    std::string r;
    try
    {
        std::basic_string<CharT> out;
        bool done = false;
        if constexpr(B::classic)
        {
            if(A["loc"].n)
            {
                const std::locale loc = val::make_locale<CharT>(A);
                out = papilio::vformat(loc, script, args);
                done = true;
            }
        }
        if(!done)
            out = papilio::vformat(script, args);
        r = "{\"ok\":1,\"e\":\"\",\"o\":" + mini::units(out) + "}";
    }
    catch(...)
    {
        r = "{\"ok\":0,\"e\":\"" + mini::error_name() + "\",\"o\":[]}";
    }
    return r;
}
