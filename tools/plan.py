"""What each check runs. Numbers are sessions (or cases) of the quick tier."""

# (family, count)
PLAN = {
    "C01": dict(fam=[("history", 110), ("crowds", 8), ("moving", 20), ("siding", 15), ("tour", 400)], behave=20),
    "C02": dict(fam=[("history", 100), ("crowds", 4), ("takeovers", 80), ("tour", 200)], behave=45, repl=True),
    "C03": dict(fam=[("history", 60), ("crowds", 4), ("moving", 50), ("nesting", 40), ("tour", 300), ("logging", 20)]),
    "C04": dict(fam=[("history", 90), ("crowds", 4), ("moving", 20), ("siding", 15), ("keying", 15), ("tour", 600)]),
    "C05": dict(fam=[("refusing", 220), ("refused_tour", 500), ("orphan", 3)], repl=True),
    "C06": dict(fam=[("history", 60), ("siding", 60), ("nesting", 30), ("misfits", 20)]),
    "C07": dict(fam=[("pausing", 160), ("deep_pausing", 15), ("logging", 40)], behave=30, repl=True),
    "C08": dict(fam=[("siding", 90), ("conc_tour", 300), ("threads", 100), ("hammer", 30)]),
    "C09": dict(fam=[("cutting", 150)], behave=25),
    "C10": dict(fam=[("misfits", 170), ("misfit_tour", 1200)]),
    "C11": dict(fam=[("reading", 900), ("misfits", 90), ("merging", 250)]),
    "C12": dict(fam=[("round_trips", 1500), ("numbers", 1), ("bulky", 60), ("history", 25)]),
    "C13": dict(fam=[("serializing", 1300), ("numbers", 1), ("bulky", 60), ("history", 30)]),
    "C14": dict(fam=[("serializing", 700), ("numbers", 1), ("bulky", 70), ("merging", 300), ("history", 40), ("sharing", 10)]),
    "C15": dict(fam=[("merging", 1000), ("bulky", 60), ("nesting", 60), ("reading", 300)]),
    "C16": dict(fam=[("enums", 110), ("misfits", 40), ("enum_tour", 500)]),
    "C17": dict(fam=[("collections", 120), ("crowds", 6), ("moving", 20), ("tour", 700)]),
    "C18": dict(fam=[("comparing", 1300)]),
    "C19": dict(fam=[("nesting", 90), ("moving", 40), ("history", 20)]),
    "C20": dict(fam=[("moving", 120), ("pausing", 20), ("siding", 15)]),
    "C21": dict(fam=[("keying", 140), ("misfits", 40), ("key_tour", 400)]),
    "C22": dict(fam=[("logging", 150), ("lg_tour", 1), ("entry_values", 60), ("history", 20)]),
    "C23": dict(clients=True, fam=[("klasses", 1), ("emitting", 220), ("client_reading", 700), ("numbers", 1)]),
    "C24": dict(clients=True, behave=20, fam=[("numbers", 1), ("client_history", 120), ("crowds", 6), ("tour", 500)]),
    "C27": dict(fam=[("twins", 150)]),
    "C28": dict(clients=True, fam=[("listening", 70), ("tables", 40), ("newer", 25)]),
    "C29": dict(clients=True, fam=[("newer", 110)]),
    "C25": dict(items=1500),
    "C26": dict(clients="emit", fam=[("chunking", 1000), ("cutting", 60), ("round_trips", 100), ("unwritable", 150), ("scripts", 500), ("script_tour", 900), ("bulky", 50)]),
}

# Types whose values and transitions are enumerated: (type, bound on lists and maps).
TOURS = {
    "tour": [("List<ME>", 1), ("Map<u8, MP>", 2), ("List<List<u8>>", 2), ("Map<u8, ME>", 1), ("List<MP>", 2)],
    "refused_tour": [("List<ME>", 1), ("Map<u8, MP>", 2), ("ME", 1), ("List<MP>", 2)],
    "misfit_tour": [("List<ME>", 1), ("Map<u8, MP>", 2), ("List<List<u8>>", 1), ("Map<Key, MP>", 2), ("Maybe<ME>", 1)],
    "enum_tour": [("ME", 2), ("List<ME>", 1), ("Maybe<ME>", 1), ("Map<u8, ME>", 1)],
    "key_tour": [("Map<Key, MP>", 2), ("Map<u8, MP>", 2)],
}
# More of them for the thorough tier.
DEEP = [("List<ME>", 2), ("Map<u8, List<MP>>", 2), ("List<Map<u8, MP>>", 2), ("MS", 1), ("Maybe<List<MP>>", 2), ("Box<ME>", 2),
        ("List<Box<MP>>", 2), ("Map<u8, ME>", 2), ("List<bool>", 3), ("Map<u8, bool>", 2)]

# The replication model: (type, bound, log bound, followers).
REPL = [("MP", 1, 2, 1)]
REPL_DEEP = [("MP", 1, 3, 2), ("List<MP>", 1, 3, 1), ("List<MP>", 2, 2, 1), ("Map<u8, MP>", 1, 2, 1)]
BEHAVE = [("List<ME>", 2), ("Map<u8, List<MP>>", 2), ("ME", 2), ("List<MS>", 1), ("List<Map<u8, MP>>", 2)]

# Loggers of which all behaviours up to some length are taken: quick and thorough.
LOGGERS = [[("buffer", 3), ("batches", 4), ("writer", 3), ("picky", 3)], [("buffer", 4), ("batches", 5), ("writer", 4), ("picky", 4)]]

# Declarations which are enumerated.
ITEMS = ["singles", "twice", "tagged", "derived", "typed", "odds"]

# Threads: (type, programs, operations of each thread, threads): all schedules of each program.
CONC = [[("MD", 12, 2, 2)], [("MD", 30, 2, 2), ("MD", 4, 2, 3), ("MD", 12, 3, 2)]]
