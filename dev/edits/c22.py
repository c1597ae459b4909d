P = "finat/physically_mapped.py"
F = "finat/"
EDITS = [
    ("bug", "C22", P, 'Citations().add("Groselj2022"', 'Citations().add("Groselj2021"'),
    ("bug", "C22", F + "hct.py", 'Citations().register("Groselj2022")', 'Citations().register("GroseljKnez2022")'),
    ("bug", "C22", F + "morley.py", '        if Citations is not None:\n            Citations().register("Morley1971")', '        Citations().register("Morley1971")'),
    ("bug", "C22", F + "hct.py", '        if Citations is not None:\n            Citations().register("Clough1965")\n            if degree > 3:\n                Citations().register("Groselj2022")', '        if Citations is not None:\n            Citations().register("Clough1965")\n        if degree > 3:\n            Citations().register("Groselj2022")'),
    ("bug", "C22", F + "argyris.py", '            Citations().register("Argyris1968")\n        if variant is None:', '            Citations().register("Argyris1968" if variant != "point" else "Kirby2018argyris")\n        if variant is None:'),
    ("bug", "C22", F + "fiat_elements.py", '    Citations().add("Chin1999higher"', '    Citations().add("Chin1999"'),
    ("bug", "C22", F + "hz.py", "from finat.physically_mapped import Citations, identity", "from finat.physically_mapped import identity"),
    ("same", "C22", F + "morley.py", '        if Citations is not None:\n            Citations().register("Morley1971")', '        if Citations:\n            table = Citations()\n            for key in ("Morley1971", "Kirby2018zany"):\n                table.register(key)'),
    ("same", "C22", F + "hct.py", '        if Citations is not None:\n            Citations().register("Clough1965")\n            if degree > 3:\n                Citations().register("Groselj2022")', '        if Citations is not None:\n            for key in ["Clough1965"] + (["Groselj2022"] if degree > 3 else []):\n                Citations().register(key)'),
    ("same", "C22", P, '    Citations().add("Morley1971", """', '    Citations().add("Morley" + str(1971), """'),
    ("same", "C22", P, "except ImportError:\n    Citations = None", "except ImportError:\n    Citations = None\n\n\ndef cite(*keys):\n    if Citations is None:\n        return\n    for key in keys:\n        Citations().register(key)"),
]
