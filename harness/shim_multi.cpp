// Compiled, together with another copy of the library, with -Dmshio=<other name> and
// -DVF_SHIM=<function>: lets one process use several builds of the library.
#include <mshio/exception.h>
#include <mshio/mshio.h>

#include <istream>
#include <new>
#include <stdexcept>
#include <string>

// Returns a new spec or null; kind is numbered as vf::Kind.
void* VF_SHIM(std::istream& in, int& kind, std::string& what)
{
    kind = 0;
    try {
        return new mshio::MshSpec(mshio::load_msh(in));
    }
    catch (const mshio::UnsupportedFeature& e) { what = e.what(); kind = 1; }
    catch (const mshio::InvalidFormat& e) { what = e.what(); kind = 2; }
    catch (const mshio::CorruptData& e) { what = e.what(); kind = 3; }
    catch (const std::bad_alloc& e) { what = e.what(); kind = 4; }
    catch (const std::length_error& e) { what = e.what(); kind = 5; }
    catch (const std::ios_base::failure& e) { what = e.what(); kind = 6; }
    catch (const std::runtime_error& e) { what = e.what(); kind = 7; }
    catch (const std::exception& e) { what = e.what(); kind = 8; }
    catch (...) { kind = 9; }
    return nullptr;
}
