// Memory-access recorder for code compiled with -fsanitize=thread (own runtime, no libtsan).
#pragma once
#include <string>
namespace race {
    void begin();                  // start recording (scheduler active)
    void finish();                 // stop and emit the events of specs/Race.tla
    bool recording();
}
