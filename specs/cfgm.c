/* C05: which devices a configuration claims */
#include "keyd.h"
#include "kv.h"
char *strstr(const char *h, const char *n);
#include "config.c"

struct config kvg_config;
char kvg_id[64];
uint8_t kvg_flags;

static int kvs_decides(size_t j)
{
	uint8_t f = kvg_config.ids[j].flags;
	return (((f & ID_EXCLUDED) | (f & kvg_flags)) != 0) & (int)(kv_uf("names", j) & 1);
}

/* ghost: the first id that decides (64 if none does) */
size_t kvg_first;
static int kvs_undecided(size_t j) { return (j >= kvg_first) | (j >= kvg_config.nr_ids) | !kvs_decides(j & 63); }

char *strstr(const char *h, const char *n)
{
	kv_assume(kvs_undecided(kv_index(n, 0)));	/* what kvg_first stands for, at the id in question */
	/* is the id number (n - ids) a prefix of the device's id? (the meaning of strstr(h, n) == h) */
	if (kv_uf("names", kv_index(n, 0)) & 1)
		return (char *)h;
	if (kv_bool("found"))
		return (char *)h + 1;
	return NULL;
}

static int kvinv_config_check_match_i(size_t *v64__i) { return (*v64__i <= kvg_config.nr_ids) & ((*v64__i <= kvg_first) | (kvg_first >= kvg_config.nr_ids)); }

static int kvc_config_check_match(struct config *config, const char *id, uint8_t flags)
{
	int r, here;
	kv_assigns_any();
	r = config_check_match(config, id, flags);
	here = kvg_first < config->nr_ids;
	ENS("C05", (r >= 0) & (r <= 2), "a rank");
	ENS("C05", IMP(here, r == ((config->ids[kvg_first & 63].flags & ID_EXCLUDED) ? 0 : 2)), "the first id that names the device decides");
	ENS("C05", IMP(!here, r == (config->wildcard ? 1 : 0)), "a device no id names is claimed by the wildcard only");
	return r;
}

void kvt_check_match(void)
{
	kv_assume(kvg_config.nr_ids <= 64);
	kvg_id[63] = 0;
	kv_assume((kvg_first >= kvg_config.nr_ids) | kvs_decides(kvg_first & 63));
	kvc_config_check_match(&kvg_config, kvg_id, kvg_flags);
	kv_cover("end");
}
