prop("C01", "Settings are taken as meant or refused, and the radio is opened accordingly",
     "Each numeric setting is taken exactly if it is within its range, as a number or (where text is understood) as decimal or hexadecimal text, and has that value; anything else is refused as invalid. Switches, keys, addresses, channels and additional endpoints are those given; what is not given has its documented default. A serial port is opened with the flow control asked for, the new setting before the deprecated ones; a socket address with its host and port, 6638 if there is none, and one that does not answer in time fails with a timeout.",
     "inputs faults schedules", "every numeric setting with any value, as number and text; any key and descriptor; all flow control settings; socket addresses that answer, fail or hang",
     "configuration mistakes are accepted silently and show up as a wrong network", "zigpy/config/__init__.py zigpy/config/validators.py zigpy/serial.py",
     [("CONFIG_SCHEMA, SCHEMA_DEVICE", "zigpy/config/__init__.py"), ("cv_boolean, cv_hex, cv_key, cv_simple_descriptor", "zigpy/config/validators.py"), ("create_serial_connection", "zigpy/serial.py")],
     observe=["the validated settings, exceptions, how the port is opened"])
