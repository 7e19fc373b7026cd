package javax.ws.rs.core;
import java.util.*;
import verif.Map1;
public class Response implements AutoCloseable {
    int status; Object entity; public Map<String, List<Object>> headers = Map1.create();
    public String wire; // entity as received
    public static Response received(int status, Map<String, List<Object>> headers, String body) {
        Response r = new Response(); r.status = status; r.headers = headers; r.wire = body; return r;
    }
    public int getStatus() { return status; }
    public Status getStatusInfo() { return Status.fromStatusCode(status); }
    public Object getEntity() { return entity; }
    public boolean hasEntity() { return wire != null ? wire.length() > 0 : entity != null; }
    public void close() {}
    public Map<String, List<Object>> getHeaders() { return headers; }
    public String getHeaderString(String n) {
        List<Object> l = headers.get(n);
        if (l == null) return null;
        StringBuilder b = new StringBuilder();
        for (Object o : l) { if (b.length() > 0) b.append(","); b.append(verif.Wire.headerText(o)); }
        return b.toString();
    }
    @SuppressWarnings("unchecked")
    public <T> T readEntity(Class<T> c) { return (T) verif.Wire.readBody(wire, c); }
    @SuppressWarnings("unchecked")
    public <T> T readEntity(GenericType<T> c) { return (T) verif.Wire.readBody(wire, c.getType()); }
    public static ResponseBuilder status(int s) {
        if (s < 100 || s > 599) throw new IllegalArgumentException("response status code " + s);
        ResponseBuilder b = new ResponseBuilder(); b.r.status = s; return b;
    }
    public static ResponseBuilder status(Status s) { return status(s.getStatusCode()); }
    public static ResponseBuilder status(int s, String reason) { return status(s); }
    public static ResponseBuilder ok() { return status(200); }
    public static ResponseBuilder ok(Object e) { return status(200).entity(e); }
    public static ResponseBuilder noContent() { return status(204); }
    public static ResponseBuilder serverError() { return status(500); }
    public static class ResponseBuilder {
        Response r = new Response();
        public Response build() { return r; }
        public ResponseBuilder status(int s) { r.status = s; return this; }
        public ResponseBuilder entity(Object o) { r.entity = o; return this; }
        public ResponseBuilder type(String t) { return header("Content-Type", t); }
        public ResponseBuilder type(MediaType t) { return header("Content-Type", t.toString()); }
        public ResponseBuilder header(String n, Object v) {
            if (v == null) { r.headers.remove(n); return this; }
            r.headers.computeIfAbsent(n, k -> new ArrayList<>()).add(v); return this;
        }
    }
    public enum Status {
        OK(200), CREATED(201), ACCEPTED(202), NO_CONTENT(204), NOT_MODIFIED(304), BAD_REQUEST(400), UNAUTHORIZED(401), FORBIDDEN(403), NOT_FOUND(404), CONFLICT(409), INTERNAL_SERVER_ERROR(500);
        private final int code;
        Status(int c) { code = c; }
        public int getStatusCode() { return code; }
        public static Status fromStatusCode(int c) { for (Status s : values()) if (s.code == c) return s; return null; }
    }
}
