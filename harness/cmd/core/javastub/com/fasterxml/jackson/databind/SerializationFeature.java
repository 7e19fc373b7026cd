package com.fasterxml.jackson.databind; public enum SerializationFeature { INDENT_OUTPUT, FAIL_ON_EMPTY_BEANS, WRITE_DATES_AS_TIMESTAMPS }
