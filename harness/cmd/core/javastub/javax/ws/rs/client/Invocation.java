package javax.ws.rs.client;
import java.util.*;
import javax.ws.rs.core.Response;
import verif.Map1;
public class Invocation {
    public static class Builder {
        final WebTarget t; final Map<String, List<Object>> h = Map1.create();
        Builder(WebTarget t) { this.t = t; }
        public Builder header(String n, Object v) { if (v == null) h.remove(n); else h.computeIfAbsent(n, k -> new ArrayList<>()).add(v); return this; }
        public Builder accept(String... s) { return this; }
        public Response get() { return method("GET"); }
        public Response delete() { return method("DELETE"); }
        public Response head() { return method("HEAD"); }
        public Response options() { return method("OPTIONS"); }
        public Response post(Entity<?> e) { return method("POST", e); }
        public Response put(Entity<?> e) { return method("PUT", e); }
        public Response method(String m) { return method(m, null); }
        public Response method(String m, Entity<?> e) {
            switch (m) {
            case "GET": case "HEAD": case "DELETE": if (e != null) throw new IllegalStateException("Entity must be null for http method " + m); break;
            case "PUT": case "PATCH": if (e == null) throw new IllegalStateException("Entity must not be null for http method " + m); break;
            }
            return verif.Wire.send(m, t.url(), h, e == null ? "" : verif.Wire.writeBody(e.getEntity()));
        }
    }
}
