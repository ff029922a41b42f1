/* User-defined events shared by the harnesses; ht_events.c holds the definitions. */
#ifndef H_HT_EVENTS_H
#define H_HT_EVENTS_H
#include <hawktracer/event_macros.h>
#include <hawktracer/core_events.h>
HT_DECLS_BEGIN
HT_DECLARE_EVENT_KLASS(EvTiny, HT_Event, (INTEGER, uint8_t, v))
HT_DECLARE_EVENT_KLASS(EvMsg, HT_Event, (INTEGER, uint32_t, who), (INTEGER, uint32_t, seq), (STRING, const char*, text))
HT_DECLARE_EVENT_KLASS(EvNums, HT_Event, (INTEGER, int8_t, i8), (INTEGER, uint8_t, u8), (INTEGER, int16_t, i16), (INTEGER, uint16_t, u16),
                       (INTEGER, int32_t, i32), (INTEGER, uint32_t, u32), (INTEGER, int64_t, i64), (INTEGER, uint64_t, u64))
HT_DECLARE_EVENT_KLASS(EvDerived, EvMsg, (INTEGER, int16_t, extra), (STRING, const char*, more))
HT_DECLARE_EVENT_KLASS(EvDerived2, EvDerived, (STRING, const char*, last), (INTEGER, uint64_t, end))
HT_DECLARE_EVENT_KLASS(EvTrace, HT_CallstackBaseEvent, (INTEGER, uint16_t, label), (STRING, const char*, where))
HT_DECLARE_EVENT_KLASS(EvStr3, HT_Event, (STRING, const char*, a), (STRING, const char*, b), (STRING, const char*, c))
HT_DECLARE_EVENT_KLASS(EvLabelNum, HT_Event, (INTEGER, int32_t, label), (INTEGER, uint32_t, duration))
HT_DECLS_END
#endif
