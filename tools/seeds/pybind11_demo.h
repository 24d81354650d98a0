// As much of pybind11 as the wrapper classes need.
#pragma once
static long asked = 0, pending_at = -1;
static inline int PyErr_CheckSignals() { return ++asked >= pending_at && pending_at >= 0 ? -1 : 0; }
namespace pybind11 { struct args {}; }
