// Force-included (-include, with -I/usr/include/pypy3.9) in every C++ file; see notes in /opt/vp/BUILD.json.
//  1. <cstdint>: the vendored pybind11 2.3.dev0 uses std::uint16_t without including it (gcc >= 13).
//  2. pybind11 2.3.dev0 runs a Python snippet on PyPy (make_static_property_type) that begins
//     with "\<newline>        class ...". PyPy 7.3.15's parser calls that an unexpected indent.
//     Such a snippet is run under "if True:" instead; all other strings pass through unchanged.
#pragma once
#include <cstdint>
#include <string>
#include <Python.h>

static inline PyObject *sacf_compat_run_string(const char *src, int start, PyObject *g, PyObject *l) {
    if (start == Py_file_input && src[0] == '\\' && src[1] == '\n' && src[2] == ' ')
        return PyRun_String((std::string("if True:\n") + (src + 2)).c_str(), start, g, l);
    return PyRun_String(src, start, g, l);
}
#undef PyRun_String
#define PyRun_String sacf_compat_run_string
