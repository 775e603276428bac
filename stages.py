# Scale (percent of the counts in the harness) of each build a check runs.
# The optimised build covers volume; the sanitised one judges memory and UB.
S = STAGES
S["C01"] = [("fast", 500), ("san", 60)]
S["C02"] = [("fast", 400), ("san", 50)]
S["C03"] = [("fast", 120), ("san", 45)]
S["C07"] = [("fast", 1200), ("san", 250)]
S["C08"] = [("fast", 1500), ("san", 500)]
S["C10"] = [("fast", 1000), ("san", 250)]
S["C14"] = [("fast", 4000), ("san", 1000)]
S["C15"] = [("fast", 2500), ("san", 500)]
S["C16"] = [("fast", 2500), ("san", 500)]
S["C17"] = [("fast", 1500), ("san", 300)]
S["C18"] = [("fast", 4000), ("san", 1000)]
S["C28"] = [("fast", 4000), ("san", 1000)]
S["C11"] = [("fast", 400), ("san", 60)]
S["C12"] = [("fast", 400), ("san", 60)]
S["C13"] = [("fast", 700), ("san", 100)]
S["C04"] = [("fast", 700), ("san", 100)]
S["C05"] = [("fast", 150), ("san", 30)]
S["C06"] = [("fast", 700), ("san", 90)]
S["C09"] = [("fast", 1500), ("san", 800)]
S["C19"] = [("fast", 8000), ("san", 2500)]
S["C20"] = [("fast", 12000), ("san", 3000)]
S["C21"] = [("fast", 6000), ("san", 1700)]
S["C22"] = [("fast", 2500), ("san", 500)]
S["C23"] = [("fast", 4000), ("san", 800)]
S["C24"] = [("fast", 5000), ("san", 1000)]
S["C25"] = [("fast", 5000), ("san", 800)]
S["C26"] = [("fast", 900), ("san", 200)]
S["C27"] = [("fast", 200), ("tsan", 100)]
S["C29"] = [("fast", 5000), ("san", 1200)]
S["C30"] = [("fast", 150), ("san", 12)]
# Runs per libFuzzer process (eight of them) in the thorough tier: about 80 s
# each. Left out: C05, C18, C27 and C30 (statistics, threads), C08 and C14
# (pure functions that random search covers), C11, C13, C15, C17 and C21 (a few
# runs per second).
FUZZ = dict(C01=24000, C02=11000, C03=4000, C04=12000, C06=50000, C07=400000, C09=8000, C10=7000,
            C12=8000, C16=5000, C19=45000, C25=11000, C26=12000)
