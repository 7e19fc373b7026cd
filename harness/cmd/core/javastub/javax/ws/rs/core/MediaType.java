package javax.ws.rs.core;
public class MediaType {
    public static final String APPLICATION_JSON = "application/json";
    public static final String TEXT_PLAIN = "text/plain";
    public static final String WILDCARD = "*/*";
    public static final MediaType APPLICATION_JSON_TYPE = new MediaType("application", "json");
    public static final MediaType TEXT_PLAIN_TYPE = new MediaType("text", "plain");
    private final String t, s;
    public MediaType(String t, String s) { this.t = t; this.s = s; }
    public String toString() { return t + "/" + s; }
}
