package org.glassfish.jersey.logging;
public class LoggingFeature {
    public static final String DEFAULT_LOGGER_NAME = "x";
    public enum Verbosity { HEADERS_ONLY, PAYLOAD_TEXT, PAYLOAD_ANY }
    public LoggingFeature(java.util.logging.Logger l, java.util.logging.Level v, Verbosity b, Integer n) {}
}
