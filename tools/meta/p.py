prop("P01", "What is known of the network survives restarts and crashes",
     "After a restart the application knows the same initialized devices with addresses, descriptors, endpoints, clusters, manufacturer, model, attribute values, unsupported attributes, source routes, neighbors and routes, the same groups with names and members, and the same backups. Times of attributes and of last contact may lag by up to 30 s when nothing else changed. Nothing is left of removed devices. After a crash or a database error at any moment each event is stored completely or not at all, and earlier and later ones are not affected; a database being created can be used afterwards.",
     "histories crash-points faults", "histories of 2 to 4 events of 17 kinds with any values; a crash before, or error of, each database operation of 8 sequences",
     "data loss shows only after restarts, and depends on the history and on the moment of a crash", "zigpy/appdb.py",
     [("PersistingListener", "zigpy/appdb.py"), ("_load_db", "zigpy/application.py"), ("ClusterPersistingListener", "zigpy/zcl/__init__.py"), ("schema_v13.sql", "zigpy/appdb_schemas/schema_v13.sql")],
     state=[("database", "tables of devices, endpoints, clusters, attributes, groups, routes, backups", "zigpy/appdb_schemas/schema_v13.sql")],
     observe=["what an application started on the same database knows"],
     note="SQLite is replaced by an interpreter, in props/sql.py, of the SQL statements the code issues; each replayed sample runs on the real sqlite3 and must agree.")
prop("P02", "Databases of earlier versions lose nothing when they are upgraded",
     "An application started on a database of version 3 or later knows everything that database did: devices, endpoints, clusters, attribute values, unsupported attributes, descriptors, groups, source routes, neighbors, routes and backups; times that were not kept are the epoch, rows of devices that do not exist are left out. If the upgrade fails or the process ends at any moment of it, the next start knows all as well. A database whose version does not fit its tables is refused with CorruptDatabase and not changed; one of a newer version is used as it is.",
     "inputs crash-points faults", "versions 3 to 13, any values; a fault or crash at each (or every 2nd, 37th) operation",
     "each user upgrades once, from a state no test has", "zigpy/appdb.py zigpy/appdb_schemas/*.sql",
     [("_run_migrations, _migrate_tables, _migrate_to_v4 to _v13", "zigpy/appdb.py")], state=[("database", "tables of all versions", "zigpy/appdb_schemas")],
     observe=["what an application started on the database knows, exceptions"])
