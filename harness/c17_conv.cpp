/* C17: conversion between byte orders restores every value of every type. */
#include "sym.h"
#include <hawktracer/parser/endianness_convert.hpp>
using namespace HawkTracer::parser;
static uint64_t rev(uint64_t v, unsigned w) { uint64_t r = 0; for (unsigned i = 0; i < w; i++) r |= ((v >> (8 * i)) & 0xff) << (8 * (w - 1 - i)); return r; }
template <typename T> static void one(T v)
{
    sym_check(convert_endianness_to_native((T)rev((uint64_t)v, sizeof(T)), HT_ENDIANNESS_BIG) == v, "a value of the other byte order is restored");
    sym_check(convert_endianness_to_native(v, HT_ENDIANNESS_LITTLE) == v, "a value of the same byte order is unchanged");
}
extern "C" void harness(void)
{
    uint64_t v = sym_u64("v");
    switch (sym_choice("type", 8))
    {
    case 0: one<uint8_t>((uint8_t)v); break;
    case 1: one<int8_t>((int8_t)v); break;
    case 2: one<uint16_t>((uint16_t)v); break;
    case 3: one<int16_t>((int16_t)v); break;
    case 4: one<uint32_t>((uint32_t)v); break;
    case 5: one<int32_t>((int32_t)v); break;
    case 6: one<uint64_t>(v); break;
    default: one<int64_t>((int64_t)v); break;
    }
    sym_reached("done");
}
