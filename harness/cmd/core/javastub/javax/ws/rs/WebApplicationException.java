package javax.ws.rs;
import javax.ws.rs.core.Response;
public class WebApplicationException extends RuntimeException {
    private final Response response;
    public WebApplicationException() { this(500); }
    public WebApplicationException(int status) { this(Response.status(status).build()); }
    public WebApplicationException(String message, int status) { super(message); response = Response.status(status).build(); }
    public WebApplicationException(Response.Status status) { this(status.getStatusCode()); }
    public WebApplicationException(Response r) { super("HTTP " + r.getStatus()); response = r; }
    public WebApplicationException(Throwable cause, Response r) { super(cause); response = r; }
    public Response getResponse() { return response; }
}
