// Compiled, together with a second copy of the library, with -Dmshio=mshio_def and without the
// NanoSpline extension: lets one process use both builds.
#include <mshio/exception.h>
#include <mshio/mshio.h>

#include <sstream>
#include <string>

// Returns a new spec or null (then what says why).
void* def_load(const std::string& bytes, std::string& what)
{
    std::istringstream in(bytes, std::ios::in | std::ios::binary);
    try {
        return new mshio::MshSpec(mshio::load_msh(in));
    } catch (const std::exception& e) {
        what = e.what();
    } catch (...) {
        what = "exception not derived from std::exception";
    }
    return nullptr;
}
bool def_save(const void* spec, std::string& bytes, std::string& what)
{
    std::ostringstream out(std::ios::out | std::ios::binary);
    try {
        mshio::save_msh(out, *static_cast<const mshio::MshSpec*>(spec));
    } catch (const std::exception& e) {
        what = e.what();
        return false;
    } catch (...) {
        what = "exception not derived from std::exception";
        return false;
    }
    bytes = out.str();
    return out.good();
}
