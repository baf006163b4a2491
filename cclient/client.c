/* Uses the library through the C header of the repository. Reads requests made of fields (a number of
 * bytes, a line end, the bytes), answers a line of JSON to each. */
#include "libsnips_nlu.h"
#include <inttypes.h>
#include <stdio.h>
#include <string.h>

static CSnipsNluEngine *engine = NULL;

static char *field(size_t *size) {
    long n;
    if (scanf("%ld", &n) != 1) exit(0);
    getchar();
    if (size) *size = n < 0 ? 0 : (size_t)n;
    if (n < 0) return NULL;
    char *s = malloc((size_t)n + 1);
    if (fread(s, 1, (size_t)n, stdin) != (size_t)n) exit(3);
    s[n] = 0;
    return s;
}

static long number(void) {
    char *s = field(NULL);
    long n = atol(s);
    free(s);
    return n;
}

static void string(const char *s) {
    if (!s) {
        printf("null");
        return;
    }
    putchar('"');
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c < 32 || c == '"' || c == '\\')
            printf("\\u%04x", c);
        else
            putchar(c);
    }
    putchar('"');
}

static void real(double d) {
    /* JSON has no other numbers */
    if (d - d == 0)
        printf("%.17g", d);
    else
        printf("null");
}

static void member(const char *name) { printf(",\"%s\":", name); }

static void precision(SNIPS_PRECISION p) {
    printf(p == SNIPS_PRECISION_EXACT ? "\"Exact\"" : p == SNIPS_PRECISION_APPROXIMATE ? "\"Approximate\"" : "\"?\"");
}

static void grain(SNIPS_GRAIN g) {
    switch (g) {
    case SNIPS_GRAIN_YEAR: printf("\"Year\""); break;
    case SNIPS_GRAIN_QUARTER: printf("\"Quarter\""); break;
    case SNIPS_GRAIN_MONTH: printf("\"Month\""); break;
    case SNIPS_GRAIN_WEEK: printf("\"Week\""); break;
    case SNIPS_GRAIN_DAY: printf("\"Day\""); break;
    case SNIPS_GRAIN_HOUR: printf("\"Hour\""); break;
    case SNIPS_GRAIN_MINUTE: printf("\"Minute\""); break;
    case SNIPS_GRAIN_SECOND: printf("\"Second\""); break;
    default: printf("\"?\"");
    }
}

static void kind(const char *name) { printf("{\"kind\":\"%s\"", name); }

static void named(const char *name, const CSlotValue *v) {
    kind(name);
    member("value");
    string((const char *)v->value);
}

static void value(const CSlotValue *v) {
    switch (v->value_type) {
    case SNIPS_SLOT_VALUE_TYPE_CUSTOM: named("Custom", v); break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICALBUM: named("MusicAlbum", v); break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICARTIST: named("MusicArtist", v); break;
    case SNIPS_SLOT_VALUE_TYPE_MUSICTRACK: named("MusicTrack", v); break;
    case SNIPS_SLOT_VALUE_TYPE_CITY: named("City", v); break;
    case SNIPS_SLOT_VALUE_TYPE_COUNTRY: named("Country", v); break;
    case SNIPS_SLOT_VALUE_TYPE_REGION: named("Region", v); break;
    case SNIPS_SLOT_VALUE_TYPE_NUMBER:
        kind("Number");
        member("value");
        real(*(const CNumberValue *)v->value);
        break;
    case SNIPS_SLOT_VALUE_TYPE_PERCENTAGE:
        kind("Percentage");
        member("value");
        real(*(const CPercentageValue *)v->value);
        break;
    case SNIPS_SLOT_VALUE_TYPE_ORDINAL:
        kind("Ordinal");
        member("value");
        printf("%" PRId64, (int64_t)*(const COrdinalValue *)v->value);
        break;
    case SNIPS_SLOT_VALUE_TYPE_INSTANTTIME: {
        const CInstantTimeValue *t = v->value;
        kind("InstantTime");
        member("value");
        string(t->value);
        member("grain");
        grain(t->grain);
        member("precision");
        precision(t->precision);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_TIMEINTERVAL: {
        const CTimeIntervalValue *t = v->value;
        kind("TimeInterval");
        member("from");
        string(t->from);
        member("to");
        string(t->to);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_AMOUNTOFMONEY: {
        const CAmountOfMoneyValue *t = v->value;
        kind("AmountOfMoney");
        member("value");
        real(t->value);
        member("precision");
        precision(t->precision);
        member("unit");
        string(t->unit);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_TEMPERATURE: {
        const CTemperatureValue *t = v->value;
        kind("Temperature");
        member("value");
        real(t->value);
        member("unit");
        string(t->unit);
        break;
    }
    case SNIPS_SLOT_VALUE_TYPE_DURATION: {
        const CDurationValue *t = v->value;
        kind("Duration");
        printf(",\"years\":%" PRId64 ",\"quarters\":%" PRId64 ",\"months\":%" PRId64 ",\"weeks\":%" PRId64, (int64_t)t->years,
               (int64_t)t->quarters, (int64_t)t->months, (int64_t)t->weeks);
        printf(",\"days\":%" PRId64 ",\"hours\":%" PRId64 ",\"minutes\":%" PRId64 ",\"seconds\":%" PRId64, (int64_t)t->days,
               (int64_t)t->hours, (int64_t)t->minutes, (int64_t)t->seconds);
        member("precision");
        precision(t->precision);
        break;
    }
    default: printf("{\"kind\":%d", (int)v->value_type);
    }
    putchar('}');
}

static void slots(const CSlotList *l) {
    putchar('[');
    for (int i = 0; i < l->size; i++) {
        const CSlot *s = l->slots + i;
        printf("%s{\"rawValue\":", i ? "," : "");
        string(s->raw_value);
        member("value");
        value(s->value);
        member("alternatives");
        putchar('[');
        for (int j = 0; j < s->alternatives->size; j++) {
            if (j) putchar(',');
            value(s->alternatives->slot_values + j);
        }
        putchar(']');
        printf(",\"range\":{\"start\":%d,\"end\":%d}", (int)s->range_start, (int)s->range_end);
        member("entity");
        string(s->entity);
        member("slotName");
        string(s->slot_name);
        if (!(s->confidence_score < 0)) {
            member("confidenceScore");
            real(s->confidence_score);
        }
        putchar('}');
    }
    putchar(']');
}

static void intent(const CIntentClassifierResult *r) {
    printf("{\"intentName\":");
    string(r->intent_name);
    member("confidenceScore");
    real(r->confidence_score);
    putchar('}');
}

static void failed(SNIPS_RESULT r) {
    const char *e = NULL;
    if (r != SNIPS_RESULT_KO)
        printf("{\"error\":null}");
    else if (snips_nlu_engine_get_last_error(&e) != SNIPS_RESULT_OK)
        printf("{\"error\":\"\"}");
    else {
        printf("{\"error\":");
        string(e);
        putchar('}');
        snips_nlu_engine_destroy_string((char *)e);
    }
}

static void json(SNIPS_RESULT r, const char *s) {
    if (r != SNIPS_RESULT_OK) {
        failed(r);
        return;
    }
    printf("{\"result\":%s}", s);
    if (snips_nlu_engine_destroy_string((char *)s) != SNIPS_RESULT_OK) exit(4);
}

static CStringArray *list(CStringArray *a) {
    long n = number();
    if (n < 0) return NULL;
    const char **data = malloc(sizeof(char *) * (size_t)(n + 1));
    for (long i = 0; i < n; i++) data[i] = field(NULL);
    a->data = data;
    a->size = (int)n;
    return a;
}

static void drop(CStringArray *a) {
    if (!a) return;
    for (int i = 0; i < a->size; i++) free((char *)a->data[i]);
    free((void *)a->data);
}

static void parse(int as_json) {
    char *text = field(NULL);
    CStringArray wa, ba;
    CStringArray *w = list(&wa), *b = list(&ba);
    long n = number(), m = number();
    const char *s = NULL;
    const CIntentParserResult *p = NULL;
    SNIPS_RESULT r;
    if (as_json) {
        if (n < 0)
            r = snips_nlu_engine_run_parse_into_json(engine, text, w, b, &s);
        else
            r = snips_nlu_engine_run_parse_with_alternatives_into_json(engine, text, w, b, (unsigned)n, (unsigned)m, &s);
        json(r, s);
    } else {
        if (n < 0)
            r = snips_nlu_engine_run_parse(engine, text, w, b, &p);
        else
            r = snips_nlu_engine_run_parse_with_alternatives(engine, text, w, b, (unsigned)n, (unsigned)m, &p);
        if (r != SNIPS_RESULT_OK)
            failed(r);
        else {
            printf("{\"result\":{\"input\":");
            string(p->input);
            member("intent");
            intent(p->intent);
            member("slots");
            slots(p->slots);
            member("alternatives");
            putchar('[');
            for (int i = 0; i < p->alternatives->size; i++) {
                const CIntentParserAlternative *a = p->alternatives->intent_parser_alternatives + i;
                printf("%s{\"intent\":", i ? "," : "");
                intent(a->intent);
                member("slots");
                slots(a->slots);
                putchar('}');
            }
            printf("]}}");
            if (snips_nlu_engine_destroy_result((CIntentParserResult *)p) != SNIPS_RESULT_OK) exit(4);
        }
    }
    free(text);
    drop(w);
    drop(b);
}

static void get_slots(int as_json) {
    char *text = field(NULL), *name = field(NULL);
    long m = number();
    const char *s = NULL;
    const CSlotList *l = NULL;
    SNIPS_RESULT r;
    if (as_json) {
        if (m < 0)
            r = snips_nlu_engine_run_get_slots_into_json(engine, text, name, &s);
        else
            r = snips_nlu_engine_run_get_slots_with_alternatives_into_json(engine, text, name, (unsigned)m, &s);
        json(r, s);
    } else {
        if (m < 0)
            r = snips_nlu_engine_run_get_slots(engine, text, name, &l);
        else
            r = snips_nlu_engine_run_get_slots_with_alternatives(engine, text, name, (unsigned)m, &l);
        if (r != SNIPS_RESULT_OK)
            failed(r);
        else {
            printf("{\"result\":");
            slots(l);
            putchar('}');
            if (snips_nlu_engine_destroy_slots((CSlotList *)l) != SNIPS_RESULT_OK) exit(4);
        }
    }
    free(text);
    free(name);
}

static void get_intents(int as_json) {
    char *text = field(NULL);
    const char *s = NULL;
    const CIntentClassifierResultArray *l = NULL;
    if (as_json) {
        SNIPS_RESULT r = snips_nlu_engine_run_get_intents_into_json(engine, text, &s);
        json(r, s);
    } else {
        SNIPS_RESULT r = snips_nlu_engine_run_get_intents(engine, text, &l);
        if (r != SNIPS_RESULT_OK)
            failed(r);
        else {
            printf("{\"result\":[");
            for (int i = 0; i < l->size; i++) {
                if (i) putchar(',');
                intent(l->intent_classifier_results + i);
            }
            printf("]}");
            if (snips_nlu_engine_destroy_intent_classifier_results((CIntentClassifierResultArray *)l) != SNIPS_RESULT_OK) exit(4);
        }
    }
    free(text);
}

static void create(int zip) {
    size_t n;
    char *s = field(&n);
    CSnipsNluEngine *made = NULL;
    SNIPS_RESULT r;
    if (zip)
        r = snips_nlu_engine_create_from_zip((const unsigned char *)s, (unsigned)n, (const CSnipsNluEngine **)&made);
    else
        r = snips_nlu_engine_create_from_dir(s, (const CSnipsNluEngine **)&made);
    free(s);
    if (r != SNIPS_RESULT_OK) {
        failed(r);
        return;
    }
    if (engine && snips_nlu_engine_destroy_client(engine) != SNIPS_RESULT_OK) exit(4);
    engine = made;
    printf("{\"result\":null}");
}

int main(void) {
    for (;;) {
        char *what = field(NULL);
        int as_json = what[1] == 'j';
        switch (what[0]) {
        case 'D': create(0); break;
        case 'Z': create(1); break;
        case 'P': parse(as_json); break;
        case 'S': get_slots(as_json); break;
        case 'I': get_intents(as_json); break;
        case 'V': {
            const char *s = NULL;
            SNIPS_RESULT r = snips_nlu_engine_get_model_version(&s);
            if (r != SNIPS_RESULT_OK)
                failed(r);
            else {
                printf("{\"result\":[");
                string(s);
                putchar(',');
                string(SNIPS_NLU_VERSION);
                printf("]}");
                snips_nlu_engine_destroy_string((char *)s);
            }
            break;
        }
        default: return 5;
        }
        free(what);
        putchar('\n');
        fflush(stdout);
    }
}
