// See ../../pegtl.hpp.
#ifndef VERIF_SHIM_TAO_PEGTL_ABNF_HPP
#define VERIF_SHIM_TAO_PEGTL_ABNF_HPP

#include "../../pegtl.hpp"

namespace tao
{
    namespace pegtl
    {
        namespace abnf
        {
            struct ALPHA : ascii::ranges<'a', 'z', 'A', 'Z'> {
            };
            struct DIGIT : ascii::digit {
            };
            struct HEXDIG : ascii::ranges<'0', '9', 'a', 'f', 'A', 'F'> {
            };
            struct VCHAR : ascii::range<33, 126> {
            };
            struct WSP : ascii::one<' ', '\t'> {
            };
        }
    }
}

#endif
