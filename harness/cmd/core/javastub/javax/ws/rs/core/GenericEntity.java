package javax.ws.rs.core;
import java.lang.reflect.*;
public class GenericEntity<T> {
    private final T entity; private final Type type;
    protected GenericEntity(T e) { entity = e; type = ((ParameterizedType) getClass().getGenericSuperclass()).getActualTypeArguments()[0]; }
    public GenericEntity(T e, Type t) { entity = e; type = t; }
    public final T getEntity() { return entity; }
    public final Type getType() { return type; }
}
