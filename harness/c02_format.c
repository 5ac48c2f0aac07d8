/* C02: the bytes of a serialized event are the documented packed layout, whatever the field values. */
#include "common.h"
#include <hawktracer/event_macros_impl.h>

HT_DECLARE_EVENT_KLASS(UserMixed, HT_Event, (INTEGER, uint8_t, a), (STRING, const char*, s), (INTEGER, int64_t, b), (INTEGER, uint16_t, c), (STRING, const char*, t), (INTEGER, int32_t, d))
HT_DECLARE_EVENT_KLASS(UserDerived, UserMixed, (POINTER, void*, p), (STRING, const char*, u), (INTEGER, uint8_t, z))
HT_DECLARE_EVENT_KLASS(UserDouble, HT_Event, (INTEGER, uint8_t, a), (DOUBLE, double, d), (INTEGER, uint16_t, b))
HT_DECLARE_EVENT_KLASS(UserMember, HT_Event, (INTEGER, uint16_t, before), (STRUCT, HT_CallstackIntEvent, inner), (INTEGER, uint8_t, after))
HT_DECLARE_EVENT_KLASS(UserWide, HT_Event, (INTEGER, uint8_t, f1), (INTEGER, uint8_t, f2), (INTEGER, uint8_t, f3), (INTEGER, uint8_t, f4), (INTEGER, uint8_t, f5), (INTEGER, uint8_t, f6), (INTEGER, uint8_t, f7),
    (INTEGER, uint8_t, f8), (INTEGER, uint8_t, f9), (INTEGER, uint8_t, f10), (INTEGER, uint8_t, f11), (INTEGER, uint8_t, f12), (INTEGER, uint8_t, f13), (INTEGER, uint16_t, f14), (INTEGER, uint32_t, f15), (INTEGER, uint64_t, f16))

static Out want;
static uint32_t kid;
static uint64_t ts, id;

static const char* str(void)
{
    unsigned k = sym_choice("strkind", SLEN + 2);
    return k == 0 ? NULL : sym_cstr(k - 1);
}
static void base(HT_Event* e) { e->timestamp = ts = sym_u64("ts"); e->id = id = sym_u64("id"); e->klass->klass_id = kid = sym_u32("kid"); out_base(&want, kid, ts, id); }
static void verify(HT_Event* e)
{
    HT_EventKlass* k = HT_EVENT_GET_KLASS(e);
    size_t n = k->get_size(e), r, i;
    uint8_t* b;
    uint8_t bad = 0;
    sym_check(n == want.n, "size computed for an event equals the size of its documented layout");
    b = (uint8_t*)malloc(want.n); /* exactly the documented size: writing more is an overflow */
    r = k->serialize(e, b);
    sym_check(r == want.n, "serializer reports exactly the bytes of the documented layout");
    for (i = 0; i < want.n; i++) bad |= (uint8_t)(b[i] ^ want.p[i]);
    sym_check(bad == 0, "serialized bytes equal the documented layout");
    sym_observe("size", n);
    for (i = 0; i < want.n; i++) sym_observe("byte", b[i]);
    free(b);
}
#define DECL(T, e) T e; memset(&e, 0x5A, sizeof e); HT_EVENT(&e)->klass = HT_EVENT_KLASS_GET(T); base(HT_EVENT(&e))

void harness(void)
{
    out_init(&want, 256);
    switch (sym_choice("class", 13))
    {
    case 0: { DECL(HT_Event, e); verify(HT_EVENT(&e)); break; }
    case 1: { DECL(HT_EndiannessInfoEvent, e); e.endianness = sym_u8("f"); out_le(&want, e.endianness, 1); verify(HT_EVENT(&e)); break; }
    case 2: { DECL(HT_EventKlassInfoEvent, e); e.info_klass_id = sym_u32("f"); e.event_klass_name = str(); e.field_count = sym_u8("f"); out_le(&want, e.info_klass_id, 4); out_str(&want, e.event_klass_name); out_le(&want, e.field_count, 1); verify(HT_EVENT(&e)); break; }
    case 3: { DECL(HT_EventKlassFieldInfoEvent, e); e.info_klass_id = sym_u32("f"); e.field_type = str(); e.field_name = str(); e.size = sym_u64("f"); e.data_type = sym_u8("f"); out_le(&want, e.info_klass_id, 4); out_str(&want, e.field_type); out_str(&want, e.field_name); out_le(&want, e.size, 8); out_le(&want, e.data_type, 1); verify(HT_EVENT(&e)); break; }
    case 4: { DECL(HT_CallstackBaseEvent, e); e.duration = sym_u64("f"); e.thread_id = sym_u32("f"); out_le(&want, e.duration, 8); out_le(&want, e.thread_id, 4); verify(HT_EVENT(&e)); break; }
    case 5: { DECL(HT_CallstackIntEvent, e); e.base.duration = sym_u64("f"); e.base.thread_id = sym_u32("f"); e.label = sym_u64("f"); out_le(&want, e.base.duration, 8); out_le(&want, e.base.thread_id, 4); out_le(&want, e.label, 8); verify(HT_EVENT(&e)); break; }
    case 6: { DECL(HT_CallstackStringEvent, e); e.base.duration = sym_u64("f"); e.base.thread_id = sym_u32("f"); e.label = str(); out_le(&want, e.base.duration, 8); out_le(&want, e.base.thread_id, 4); out_str(&want, e.label); verify(HT_EVENT(&e)); break; }
    case 7: { DECL(HT_StringMappingEvent, e); e.identifier = sym_u64("f"); e.label = str(); out_le(&want, e.identifier, 8); out_str(&want, e.label); verify(HT_EVENT(&e)); break; }
    case 8: { DECL(HT_SystemInfoEvent, e); e.version_major = sym_u8("f"); e.version_minor = sym_u8("f"); e.version_patch = sym_u8("f"); out_le(&want, e.version_major, 1); out_le(&want, e.version_minor, 1); out_le(&want, e.version_patch, 1); verify(HT_EVENT(&e)); break; }
    case 9:
    case 10:
    {
        int der = sym_choice("derived", 2);
        UserDerived e;
        memset(&e, 0x5A, sizeof e);
        HT_EVENT(&e)->klass = der ? HT_EVENT_KLASS_GET(UserDerived) : HT_EVENT_KLASS_GET(UserMixed);
        base(HT_EVENT(&e));
        e.base.a = sym_u8("f"); e.base.s = str(); e.base.b = (int64_t)sym_u64("f"); e.base.c = sym_u16("f"); e.base.t = str(); e.base.d = (int32_t)sym_u32("f");
        out_le(&want, e.base.a, 1); out_str(&want, e.base.s); out_le(&want, (uint64_t)e.base.b, 8); out_le(&want, e.base.c, 2); out_str(&want, e.base.t); out_le(&want, (uint32_t)e.base.d, 4);
        if (der)
        {
            e.p = (void*)(uintptr_t)sym_u64("f"); e.u = str(); e.z = sym_u8("f");
            out_le(&want, (uint64_t)(uintptr_t)e.p, 8); out_str(&want, e.u); out_le(&want, e.z, 1);
        }
        verify(HT_EVENT(&e));
        break;
    }
    case 11:
    {
        if (sym_choice("which", 2))
        {
            uint64_t bits = sym_u64("f");
            DECL(UserDouble, e);
            e.a = sym_u8("f"); memcpy(&e.d, &bits, 8); e.b = sym_u16("f");
            out_le(&want, e.a, 1); out_le(&want, bits, 8); out_le(&want, e.b, 2);
            verify(HT_EVENT(&e));
        }
        else
        {
            uint32_t ik = sym_u32("kid2"); uint64_t its = sym_u64("f"), iid = sym_u64("f");
            DECL(UserMember, e);
            HT_EVENT(&e.inner)->klass = HT_EVENT_KLASS_GET(HT_CallstackIntEvent);
            HT_EVENT(&e.inner)->klass->klass_id = ik; HT_EVENT(&e.inner)->timestamp = its; HT_EVENT(&e.inner)->id = iid;
            e.inner.base.duration = sym_u64("f"); e.inner.base.thread_id = sym_u32("f"); e.inner.label = sym_u64("f");
            e.before = sym_u16("f"); e.after = sym_u8("f");
            out_le(&want, e.before, 2); out_base(&want, ik, its, iid); out_le(&want, e.inner.base.duration, 8); out_le(&want, e.inner.base.thread_id, 4); out_le(&want, e.inner.label, 8); out_le(&want, e.after, 1);
            verify(HT_EVENT(&e));
        }
        break;
    }
    default:
    {
        DECL(UserWide, e);
#define B(f) e.f = sym_u8("f"); out_le(&want, e.f, 1)
        B(f1); B(f2); B(f3); B(f4); B(f5); B(f6); B(f7); B(f8); B(f9); B(f10); B(f11); B(f12); B(f13);
        e.f14 = sym_u16("f"); out_le(&want, e.f14, 2); e.f15 = sym_u32("f"); out_le(&want, e.f15, 4); e.f16 = sym_u64("f"); out_le(&want, e.f16, 8);
        verify(HT_EVENT(&e));
        break;
    }
    }
}
