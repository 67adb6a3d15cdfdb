// Ghost functions: declared only, given meaning by the verifier (cppv/ghost.py).
#pragma once
#include <cstddef>
#include <string>
namespace EdgeLearning { namespace ghost {
template <class T> void history(T&);      // replaces the object's state by an arbitrary reachable one (class invariant)
template <class T> void invariant(T&);    // obligation: the object satisfies its class invariant
} }
