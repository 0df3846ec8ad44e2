prop("A01", "Starting completes or lets the radio go; watching and stopping are reliable",
     "Starting connects, feeds the watchdog, loads the network or, if allowed, restores the latest backup or forms a new network, refuses settings incompatible with the latest backup when asked to, starts the network, closes joining, scans, and starts what is enabled with its configured periods. Any failure lets the radio go, leaves nothing running and is reported, passing connection errors as such; interference with the first broadcast is no failure. The watchdog is fed every 30 seconds; its failure is announced once as a lost connection. Shutdown stops all periodic work and closes everything despite failures. Probing returns the first configuration that connects, or none.",
     "inputs faults schedules", "every combination of network, backup, options and periods; each operation failing in 5 ways; watchdog failures and shutdown at any of 5 periods; up to 3 configurations",
     "startup failures at each step are rare and differ by radio", "zigpy/application.py zigpy/backups.py",
     [("startup, initialize, shutdown, probe, register_endpoints, _watchdog_loop", "zigpy/application.py")], observe=["operations asked of the radio, events, exceptions, periods"])
