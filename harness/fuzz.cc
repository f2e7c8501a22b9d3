// libFuzzer target over the whole public interface.
#include "drafter.h"
#include <cstdint>
#include <cstdlib>
#include <string>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if (size < 1)
        return 0;
    std::string src((const char*)data + 1, size - 1);
    drafter_parse_options* po = drafter_init_parse_options();
    if (data[0] & 1)
        drafter_set_name_required(po);
    drafter_result* r = nullptr;
    drafter_parse_blueprint(src.c_str(), &r, po);
    drafter_serialize_options* so = drafter_init_serialize_options();
    drafter_set_sourcemaps_included(so);
    if (data[0] & 2)
        drafter_set_format(so, DRAFTER_SERIALIZE_JSON);
    char* s = drafter_serialize(r, so);
    free(s);
    drafter_free_result(r);
    drafter_free_serialize_options(so);
    drafter_free_parse_options(po);
    return 0;
}
