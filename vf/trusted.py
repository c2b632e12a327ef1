TRUSTED_BASE = [
    'clang 18 front end (AST of the current /repo text is the verified text; nothing is rewritten)',
    'the verifier in /verif/vf (symbolic execution of the AST, loop rule, sequence axioms in vf/logic.py, std:: models in vf/stdmodel.py)',
    'z3',
    'machine arithmetic is exact: unsigned wraps modulo 2^n, signed overflow and out-of-range shifts are proof obligations',
    'sizes of std::string / std::vector objects are below 2^31 - 1 and allocation succeeds',
    'distinct reference / pointer parameters do not alias',
]
