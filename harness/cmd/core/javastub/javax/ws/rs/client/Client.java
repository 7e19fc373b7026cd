package javax.ws.rs.client;
public class Client {
    public WebTarget target(String t) { return new WebTarget(t); }
    public Client register(Class<?> c) { return this; }
    public Client register(Object c) { return this; }
}
