"""Which function decides which property."""
import checks_api
import checks_cost
import checks_env
import checks_lang
import checks_sem
import checks_threads
import checks_util
import checks_ver

CHECKS = {}
for m in (checks_util, checks_ver, checks_lang, checks_sem, checks_api, checks_env, checks_cost, checks_threads):
    CHECKS.update(m.CHECKS)
