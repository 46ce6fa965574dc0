"""all contracts"""
import importlib
LEMMAS = {}
for m in ('specs_field', 'specs_vec', 'specs_prime', 'specs_shr', 'specs_mat', 'specs_comb', 'specs_rep', 'specs_tab', 'specs_bytes', 'specs_prim', 'specs_hash', 'specs_prot', 'specs_input', 'specs_check', 'specs_net', 'specs_build'):
    try: importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m: raise
