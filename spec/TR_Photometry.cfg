SPECIFICATION TraceSpec
