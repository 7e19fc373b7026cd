package com.fasterxml.jackson.databind; public enum DeserializationFeature { FAIL_ON_UNKNOWN_PROPERTIES, USE_BIG_DECIMAL_FOR_FLOATS }
