package javax.ws.rs.core;
import java.lang.reflect.*;
public class GenericType<T> {
    private final Type type;
    protected GenericType() { type = ((ParameterizedType) getClass().getGenericSuperclass()).getActualTypeArguments()[0]; }
    public GenericType(Type t) { type = t; }
    public final Type getType() { return type; }
}
