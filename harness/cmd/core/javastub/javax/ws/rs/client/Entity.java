package javax.ws.rs.client;
import javax.ws.rs.core.MediaType;
public class Entity<T> {
    private final T entity; private final String type;
    private Entity(T e, String t) { entity = e; type = t; }
    public static <T> Entity<T> entity(T e, String t) { return new Entity<>(e, t); }
    public static <T> Entity<T> entity(T e, MediaType t) { return new Entity<>(e, t.toString()); }
    public static <T> Entity<T> json(T e) { return new Entity<>(e, MediaType.APPLICATION_JSON); }
    public T getEntity() { return entity; }
    public String type() { return type; }
}
