package javax.ws.rs.core;
public class UriBuilder {
    private final String u;
    private UriBuilder(String u) { this.u = u; }
    public static UriBuilder fromUri(String u) { return new UriBuilder(u); }
    public java.net.URI build(Object... v) { return java.net.URI.create(u); }
}
