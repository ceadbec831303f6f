SPECIFICATION CompositeSpec
