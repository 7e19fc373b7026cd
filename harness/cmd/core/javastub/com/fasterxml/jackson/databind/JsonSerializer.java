package com.fasterxml.jackson.databind;
import com.fasterxml.jackson.core.*;
import java.io.IOException;
public abstract class JsonSerializer<T> {
    public abstract void serialize(T value, JsonGenerator jgen, SerializerProvider provider) throws IOException, JsonProcessingException;
    public static abstract class None extends JsonSerializer<Object> {}
}
