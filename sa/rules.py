"""Dispatch of properties to rules."""
import rules_write as W
import rules_read as R
import rules_derive as D
import rules_map as M
import rules_vec as E
import rules_err as X
import rules_nav as N
import rules_load as L
import rules_access as A
import rules_unsafe as U
import rules_effect as F
import rules_life as I
import rules_panic as P
import rules_inspect as S
import rules_cfg as G
from texts import TEXT, TECH

TABLE = {'C24': G.c24, 'C23': S.c23, 'C11': P.c11, 'C12': P.c12, 'C22': I.c22, 'C21': F.c21, 'C26': U.c26, 'C16': A.c16, 'C20': A.c20, 'C10': L.c10, 'C15': N.c15, 'C14': X.c14, 'C09': E.c09, 'C18': M.c18, 'C19': M.c19, 'C17': D.c17, 'C25': D.c25, 'C05': R.c05, 'C13': R.c13, 'C01': W.c01, 'C02': W.c02, 'C03': W.c03, 'C04': W.c04, 'C06': W.c06, 'C07': W.c07, 'C08': W.c08, 'C27': W.c27}

def run(ctx, prop):
    r = TABLE[prop](ctx)
    return r if r is not None else TEXT[prop]
