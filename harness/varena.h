// Memory that is never reused while `on`, so that an address means one object.
#pragma once
namespace arena { void on(); void off(); }
