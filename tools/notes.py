default_note = "seeded sampling of workloads, schedules and faults; not exhaustive"
technique = {}
na_reason = {}
disabled = set()
