prop("N01", "Backups survive being written out and read back, in both formats",
     "A backup written as a dictionary or in the open coordinator format consists of what JSON knows, with addresses and numbers in hexadecimal most significant byte first, and read back it has the same network and node settings, keys with counters, link keys, children, short addresses, metadata and time. Backups older than the version field, and interchange files that lack optional parts, are read with the documented defaults; anything else is refused.",
     "inputs", "any addresses, keys, counters and settings; up to 3 devices in every combination of child, short address and link key; each optional part missing",
     "every field of every backup must survive; a swapped byte order shows only for some values", "zigpy/backups.py zigpy/state.py zigpy/types/named.py",
     [("NetworkBackup.as_dict/from_dict, _network_backup_to_open_coordinator_backup and back", "zigpy/backups.py"), ("NetworkInfo, NodeInfo, Key as_dict/from_dict", "zigpy/state.py")],
     observe=["the dictionaries and what is read from them"])
prop("N02", "Backups are snapshots; newer compatible ones replace older ones",
     "Two backups are compatible exactly when every setting a device would notice is the same, one supersedes another exactly when it is compatible and has sent more frames, and one is complete exactly when nothing needed is missing. Adding a complete backup keeps it and removes exactly the compatible ones that are no newer, each announced once; an incomplete one is ignored. A backup does not change with the network later. Restoring refuses incomplete ones, writes all settings with the counter moved ahead and takes a new backup. Periodic backups are taken at once and each period, despite failures, until stopped.",
     "inputs histories faults", "arbitrary settings; histories of 3 backups (4 when thorough); 5 periods with failures and stops at any of them",
     "which backups survive depends on a history of counters and settings", "zigpy/backups.py",
     [("NetworkBackup, BackupManager", "zigpy/backups.py")], state=[("backups", "backups kept", "zigpy/backups.py")], observe=["app.backups, events, settings written"])
prop("N03", "A network is formed with what is configured and valid choices for the rest",
     "Forming a network writes the configured channel, identifiers, keys, sequence numbers and trust center, and where they are missing a random valid network identifier, extended identifier and key and an allowed channel: the first for a temporary network, otherwise chosen from a scan of all channels on the existing network or, when there is none, a temporary one. We are its coordinator, counters start at zero, no devices are known. A network that is not temporary is backed up. A failure of the radio is reported.",
     "inputs faults", "configured and missing settings with any values and random draws; 4 scans; each operation of the radio failing",
     "an invalid random value is drawn rarely", "zigpy/application.py zigpy/backups.py", [("form_network", "zigpy/application.py"), ("restore_backup", "zigpy/backups.py")],
     observe=["settings written to the radio, operations asked of it, backups"])
prop("N04", "Energy scans cover all channels; moves to the best or a given channel complete",
     "A scan asks the coordinator for the given channels and returns the energy of each that was scanned, or zero for each asked for if scanning is not supported. The channel chosen is an allowed one, and no other allowed channel at least as suitable is quieter on itself and no noisier around. Moving the network tells all devices the channel and the next update identifier as often as asked, one second apart, then the coordinator, then reloads the settings each second until they have changed; it does nothing if already there, and a failure ends it.",
     "inputs faults", "any energies; nine lists of channels; any channels, identifiers, numbers of broadcasts; each step failing",
     "which channel is best depends on 16 energies at once", "zigpy/application.py zigpy/util.py", [("energy_scan, move_network_to_channel", "zigpy/application.py"), ("pick_optimal_channel", "zigpy/util.py")],
     observe=["packets sent with times, results"])
prop("N05", "Joining is opened where asked and nowhere else, and devices are found",
     "Opening the network tells all routers and the radio for how long; opening a device tells only that device, and opening ourselves only the radio; the address may be text. An unknown device opens nothing, one that cannot be reached is no failure, a duration outside 0 to 254 seconds is refused. A valid install code becomes a link key for the radio and an invalid one is refused. A device is found under its long or current short address, ourselves first under our own, and others not at all.",
     "inputs faults", "any durations and addresses, 4 forms of address, any answers, 5 install codes, 3 devices with any short addresses",
     "opening a network too widely is not noticed in use", "zigpy/application.py zigpy/zdo/__init__.py", [("permit, permit_with_key, get_device", "zigpy/application.py")],
     observe=["packets sent, calls to the radio"])
prop("N06", "Counters never decrease and are the sum of what was counted",
     "The value of a counter is the sum of all it counted: increments, and the growth reported by updates with a raw value, where a smaller raw value than before means the device's own counter started again. Resets keep the value. It never decreases, resets and rollovers are counted, and counting down is refused. In a group of counters each tag counts for itself within the tags before it, every counter is found where it was counted and nowhere else, and resetting a group resets all counters within it.",
     "inputs histories", "histories of 3 (4) changes by any 32-bit amounts, groups with up to 3 nested tags",
     "rollovers happen at particular values only", "zigpy/state.py", [("Counter, CounterGroup, CounterGroups", "zigpy/state.py")], observe=["values and numbers of resets of all counters"])
