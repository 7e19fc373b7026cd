package javax.ws.rs.ext;
public interface ParamConverter<T> { T fromString(String value); String toString(T value); }
