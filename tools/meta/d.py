prop("D01", "The device table follows joins, address changes, leaves and removals",
     "A join, an announcement or a successful address response makes the device known under that long and short address. It is announced as joined exactly when it is new or its short address changed; it is initialized when new or unfinished, is ready at once when complete with a new address, and otherwise has its groups looked up again on a join. A leave is announced and keeps the device. Removal ends initialization, asks the device, and the parents of a sleeping one, to leave as specified, and forgets it once it has answered, failed in any way or had its time; it is announced once and concerns no other device.",
     "histories inputs faults", "histories of 2 to 3 events on three devices in all states of initialization with arbitrary addresses; every outcome of a leave request; any neighbour tables",
     "what an event does depends on the device's state, address and what is running; tests sample single events",
     "zigpy/application.py zigpy/device.py zigpy/zdo/__init__.py",
     [("handle_join, handle_leave, remove, _remove_device, _maybe_parse_zdo", "zigpy/application.py"), ("schedule_initialize, cancel_initialization", "zigpy/device.py")],
     state=[("devices", "known devices by long address", "zigpy/application.py")], observe=["app.devices, device_joined/left/removed/initialized events, packets sent"])
prop("D02", "A new device is asked for what is unknown and is ready when it has told",
     "Initialization asks in turn, one at a time and with high priority, for the node descriptor, the endpoints, what each endpoint does, and the model and manufacturer (both at once, singly if that times out), skipping whatever is known. An endpoint answered as inactive is left alone. Any other failure, error status, missing or cut off answer ends the try; the next one, at most five, starts 0.5 s later with what was learnt. When all is told the device has the endpoints, profiles, types and clusters it told and is announced as ready once; after the fifth failed try the failure is announced once. Begun anew before the model is read, it goes on with what is unknown then, and only once.",
     "inputs histories faults", "devices of up to 2 endpoints with any identifiers; every state of prior knowledge; up to 2 failures of any kind at any steps, or one step always failing",
     "failures at each step and what is kept between tries multiply; tests follow a few paths",
     "zigpy/device.py zigpy/endpoint.py", [("Device._initialize, get_node_descriptor", "zigpy/device.py"), ("Endpoint.initialize, get_model_info", "zigpy/endpoint.py"), ("retry", "zigpy/util.py")],
     observe=["packets sent, device_initialized and device_init_failure events, endpoints and clusters"])
prop("D03", "Group membership agrees between groups, endpoints and devices",
     "A group's members and its members' lists of groups always agree, each change is announced exactly once and nothing else is, whatever sequence of adding and removing groups and members, and removing a group removes its members. A scan makes an endpoint's memberships exactly those the device reported, creating groups as needed, and changes nothing if the scan fails. Joining and leaving ask the device and take place only if it reports success or that it was so already; the status is returned.",
     "histories inputs faults", "histories of 3 changes of two groups and two endpoints; scans with up to 2 arbitrary group numbers; any status, default response or timeout",
     "agreement of two structures over histories", "zigpy/group.py zigpy/endpoint.py zigpy/device.py",
     [("Group, Groups", "zigpy/group.py"), ("add_to_group, remove_from_group, group_membership_scan", "zigpy/endpoint.py")],
     state=[("member_of", "groups of an endpoint", "zigpy/endpoint.py")], observe=["app.groups, endpoint.member_of, events, packets sent"])
prop("D04", "Topology scans read each table whole and run when they should",
     "A scan asks each router and coordinator given (by default all devices), and nobody else, for its neighbours and then its routes, each part once from where the last ended, pausing between requests, until the claimed number is there or a part is empty. The table kept is what was told without neighbours whose address is all zeros or ones and without inactive routes, and is announced once. A failed request is made up to three times; if that fails, the old table is kept. A device answering with an error status has an empty table and is not asked for it again. Short addresses in tables that belong to no device are looked for, each once. A new scan replaces a running one. Scheduled scans happen each period until stopped, also during a scan, or restarted.",
     "inputs faults schedules histories", "tables of up to 3 entries however divided with any claimed size, addresses, route kinds; up to 3 failures of any kind; any status; devices of all types; scans replaced, schedules stopped or restarted at any step",
     "the division of tables, failures and cancellation points multiply; tests follow one of each",
     "zigpy/topology.py", [("_scan_table, _scan, _find_unknown_devices", "zigpy/topology.py"), ("start_periodic_scans, _scan_loop", "zigpy/topology.py")],
     state=[("neighbors, routes", "tables by device", "zigpy/topology.py")], observe=["topology.neighbors, topology.routes, neighbors_updated, routes_updated, packets sent"])
prop("D05", "The right quirk takes over a device, or none",
     "A quirk signature fits a device exactly if everything it says (model, manufacturer, endpoints, profiles, types, clusters) is so and it lists just the endpoints and clusters there are. Of the quirks that fit, one for manufacturer and model comes before one for either, before one for neither, and of equally specific ones the last registered, unless it was removed. An entry added by manufacturer and model applies before those if all its filters agree, and two of them are an error. Registering twice changes nothing; purging a directory removes the quirks whose files are below it and no others. A device nothing fits stays as it is and a custom one stays custom. The signature a device gives of itself fits it, and another device only if it is alike.",
     "inputs histories", "signatures over 2 endpoints with any profiles, types and clusters, each part given or not; up to 3 quirks of every specificity in any order; up to 2 entries with up to 2 filters with any answers; removal and purging of any",
     "specificity, order and fitting multiply; tests register a quirk or two", "zigpy/quirks/registry.py zigpy/quirks/__init__.py zigpy/quirks/v2/__init__.py",
     [("DeviceRegistry", "zigpy/quirks/registry.py"), ("signature_matches", "zigpy/quirks/__init__.py"), ("QuirkBuilder", "zigpy/quirks/v2/__init__.py")],
     state=[("registry", "registered quirks", "zigpy/quirks/registry.py")], observe=["registry.get_device(), `in`"])
prop("D06", "What a quirk declares is what the device has, says and is asked",
     "A custom device keeps the addresses, signal values, status, descriptor and names of the device it replaces except those its quirk replaces, and has just the endpoints and clusters the quirk declares, each of its own kind, side and endpoint; one built from additions, removals, replacements and replacements everywhere has what those give in this order, and clusters that stay know what they knew without sharing it. A constant attribute is known at once and never asked for; attributes read along with it are read as usual, and refused if the device refuses. What is specific to the maker, and only that, is read, written, configured and commanded with the maker's code, unless another is given. The entities and triggers a quirk declares reach the user as declared, each under its own endpoint, cluster and side, and one that nothing names is refused. Custom clusters are configured once each when asked.",
     "inputs", "replacements of up to 3 endpoints; devices of 2 endpoints under any addition, removal and replacement, up to two at once; reads of up to 3 attributes with any answer; every operation with and without a maker's code; one entity of any kind with every option, two of different kinds",
     "each declaration interacts with the device, side and cluster it is for; tests use one quirk per feature", "zigpy/quirks/__init__.py zigpy/quirks/v2/__init__.py",
     [("BaseCustomDevice, CustomEndpoint, CustomCluster", "zigpy/quirks/__init__.py"), ("CustomDeviceV2, AddsMetadata, RemovesMetadata, ReplacesMetadata", "zigpy/quirks/v2/__init__.py"), ("QuirkBuilder, EntityMetadata", "zigpy/quirks/v2/__init__.py")],
     observe=["the custom device's endpoints and clusters, results of reads, frames sent"])
