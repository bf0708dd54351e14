// Contract models of eckit functions whose bodies only log before they throw (symbolic run only).
// The environment variables that turn exceptions into aborts (ECKIT_ASSERT_ABORTS, ...) are taken as unset.
#include "eckit/exception/Exceptions.h"
namespace eckit {
__attribute__((used)) void vcm_handle_assert(const std::string& msg, const CodeLocation& loc)
    asm("vcm._ZN5eckit13handle_assertERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_12CodeLocationE");
void vcm_handle_assert(const std::string& msg, const CodeLocation& loc) { throw AssertionFailed(msg, loc); }
}
// log channels: something that can be written to; nothing is observable through it
#include "eckit/log/Log.h"
#include "eckit/log/Channel.h"
#include "eckit/os/BackTrace.h"
namespace eckit {
static void* vcm_channel[512];
#define LOGCH(N, M) __attribute__((used)) Channel& vcm_log_##N() asm("vcm._ZN5eckit3Log" M "Ev"); Channel& vcm_log_##N() { return *reinterpret_cast<Channel*>(vcm_channel); }
LOGCH(error, "5error") LOGCH(warning, "7warning") LOGCH(info, "4info") LOGCH(debug, "5debug") LOGCH(status, "6status") LOGCH(message, "7message") LOGCH(panic, "5panic")
__attribute__((used)) std::string vcm_dump() asm("vcm._ZN5eckit9BackTrace4dumpB5cxx11Ev");
std::string vcm_dump() { return "#"; }
}
