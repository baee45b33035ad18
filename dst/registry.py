from .core import register

# property, world, quick runs, thorough runs
register("C01", "sched", 60000, 600000)
register("C02", "sched", 60000, 600000)
register("C03", "sched", 60000, 600000)
register("C04", "sched", 60000, 600000)
register("C06", "sched", 60000, 600000)
register("C23", "lockstep", 40000, 400000)
register("C24", "order", 1000, 10000, chunk=10)
register("C07", "fsm", 60000, 500000)
register("C08", "mail", 45000, 400000)
register("C09", "mail", 45000, 400000)
register("C10", "mail", 45000, 400000)
register("C13", "network", 40000, 300000)
register("C14", "network", 40000, 300000)
register("C05", "limits", 20000, 150000)
register("C15", "collect", 20000, 100000)
register("C20", "lifecycle", 30000, 200000)
register("C21", "pool", 60000, 400000, chunk=100)
register("C22", "loader", 20000, 200000)
register("C16", "export", 3500, 20000, chunk=10)
register("C17", "export", 2000, 20000, chunk=10)
register("C18", "export", 2000, 20000, chunk=10)
register("C19", "export", 2500, 20000, chunk=10)

register("C11", "repro", 700, 6000)
register("C12", "isolation", 1200, 10000, chunk=10)
register("C26", "weights", 8000, 100000)
register("C27", "topo", 30000, 300000)
register("C28", "bundled", 16000, 200000)
register("C29", "cli", 7000, 60000)
