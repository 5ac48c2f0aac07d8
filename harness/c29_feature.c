/* C29: feature registry and per-timeline features. */
#include "common.h"
#include <hawktracer/feature.h>
#include <internal/registry.h>
typedef struct { HT_Feature base; int idx; } F;
static unsigned destroyed[64];
static void on_destroy(HT_Feature* f) { destroyed[((F*)f)->idx]++; free(f); }
static HT_FeatureKlass kl[KL];
static F* mk(unsigned k, int idx) { F* f = (F*)malloc(sizeof *f); f->base.klass = &kl[k]; f->idx = idx; return f; }
void harness(void)
{
    unsigned i, j, k, reg = 0, ids[KL];
    HT_Timeline* t[2];
    F* cur[2][KL];
    int idx = 0;
    memset(cur, 0, sizeof cur);
    ht_init(0, NULL);
    for (i = 0; i < KL; i++) { kl[i].destroy = on_destroy; kl[i].id = HT_INVALID_FEATURE_ID; }
    t[0] = ht_timeline_create(8, 0, 1, NULL, NULL); t[1] = ht_timeline_create(8, 0, 1, NULL, NULL);
#if MANY
    {
        unsigned ok = 0;
        for (i = 0; i < KL; i++)
        {
            HT_ErrorCode e = ht_registry_register_feature(&kl[i]);
            if (e == HT_ERR_OK) ok++;
            else { sym_check(e == HT_ERR_MAX_FEATURE_COUNT_REACHED, "too many features are refused"); sym_check(kl[i].id == HT_INVALID_FEATURE_ID, "a refused feature has no id"); }
            for (j = 0; j < i; j++) sym_check(kl[i].id == HT_INVALID_FEATURE_ID || kl[i].id != kl[j].id, "feature ids are unique");
        }
        sym_check(ok + 2 == HT_TIMELINE_MAX_FEATURES, "as many features can be registered as a timeline can hold (2 are built in)");
        for (i = 0; i < KL; i++)
        {
            HT_ErrorCode e = ht_timeline_set_feature(t[0], (HT_Feature*)mk(i, 0));
            sym_check((e == HT_ERR_OK) == (i < ok), "a registered feature can be set, another cannot");
        }
        sym_check(destroyed[0] == KL - ok, "features that cannot be set are destroyed");
        for (i = 0; i < KL; i++) sym_check((ht_timeline_get_feature(t[0], &kl[i]) != NULL) == (i < ok), "a feature is found if it was set");
        for (i = 0; i < KL; i++) sym_check(ht_timeline_get_feature(t[1], &kl[i]) == NULL, "timelines have features of their own");
        ht_timeline_destroy(t[0]); ht_timeline_destroy(t[1]);
        sym_check(destroyed[0] == KL, "a timeline destroys its features once");
        ht_deinit();
        return;
    }
#endif
    for (k = 0; k < OPS; k++)
    {
        unsigned c = sym_choice("klass", KL), w;
        switch (sym_choice("op", 3))
        {
        case 0:
        {
            HT_ErrorCode e = ht_registry_register_feature(&kl[c]);
            sym_check(e == ((reg >> c) & 1 ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_OK), "a feature is registered once");
            if ((reg >> c) & 1) sym_check(kl[c].id == ids[c], "registering again keeps the id");
            ids[c] = kl[c].id;
            for (j = 0; j < KL; j++) if (j != c && ((reg >> j) & 1)) sym_check(kl[j].id != kl[c].id, "feature ids are unique");
            sym_check(kl[c].id < HT_TIMELINE_MAX_FEATURES, "feature id is in range");
            reg |= 1u << c;
            break;
        }
        case 1:
        {
            F* f = mk(c, idx);
            HT_ErrorCode e;
            w = sym_choice("tl", 2);
            e = ht_timeline_set_feature(t[w], (HT_Feature*)f);
            if (!((reg >> c) & 1)) { sym_check(e == HT_ERR_FEATURE_NOT_REGISTERED, "an unregistered feature is refused"); sym_check(destroyed[idx] == 1, "a refused feature is destroyed"); }
            else if (cur[w][c]) { sym_check(e == HT_ERR_FEATURE_ALREADY_REGISTERED, "a second feature of a class is refused"); sym_check(destroyed[idx] == 1, "a refused feature is destroyed"); }
            else { sym_check(e == HT_ERR_OK && destroyed[idx] == 0, "a feature is set"); cur[w][c] = f; }
            idx++;
            break;
        }
        default:
            w = sym_choice("tl", 2);
            sym_check(ht_timeline_get_feature(t[w], &kl[c]) == (HT_Feature*)cur[w][c], "a feature is found in the timeline it was set on");
        }
    }
    ht_timeline_destroy(t[0]); ht_timeline_destroy(t[1]);
    for (i = 0; i < (unsigned)idx; i++) sym_check(destroyed[i] == 1, "every feature is destroyed exactly once");
    ht_deinit();
}
